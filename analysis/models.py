"""Models of external (std / third-party) functions for the engine."""
import re

MODELS = {}


def model(*names):
    def d(fn):
        for n in names:
            MODELS[n] = fn
        return fn

    return d


IMPURE = re.compile(
    r"^<?(&|mut )*(std::(sync|io|fs|time|thread|process|env)|crossbeam\w*|parking_lot|lock_api|rand\w*|rayon\w*|core::cell|indicatif|memmap2?|reductionml|reml|ring|once_cell|flume|atomic_wait|core::sync::atomic|core::sync)"
)


def is_pure(f, name):
    if f.get("r", {}).get("kind") == "virtual":
        return False
    p = f.get("r", {}).get("path") or f["path"]
    if f.get("path") == "fnptr":
        return False
    q = p
    if IMPURE.match(p) or IMPURE.match(f["path"]):
        return False
    m = re.match(r"^<(.*?) as (.*?)>::", p)
    if m and (IMPURE.match(m.group(1))):
        return False
    return True


def E():
    import engine

    return engine


PTRISH = ("alloc::vec::Vec", "alloc::string::String", "alloc::boxed::Box", "alloc::sync::Arc", "alloc::rc::Rc", "alloc::borrow::Cow", "smallvec::SmallVec", "std::path::PathBuf", "alloc::collections::vec_deque::VecDeque")


def selfty(ex, f):
    a = f.get("a") or []
    if f.get("trait") and a:
        return ex.body.types[a[0]] if isinstance(a[0], int) else a[0]
    return None


def ident(ex, t, f, args):
    return ex.finish(t, args[0])


for n in (
    "String::as_str", "String::as_mut_str", "Vec::as_slice", "Vec::as_mut_slice", "SmallVec::as_slice", "Borrow::borrow", "BorrowMut::borrow_mut_", "AsRef::as_ref", "AsMut::as_mut", "ToOwned::to_owned",
    "String::into_boxed_str", "Vec::into_boxed_slice", "str::into_string", "slice::into_vec", "Box::leak", "Pin::new", "ManuallyDrop::new", "ManuallyDrop::into_inner", "hint::black_box", "Cow::into_owned", "slice::as_ref",
    "NonNull::as_ptr", "Box::as_mut", "Arc::as_ref", "hint::must_use", "Unique::as_ptr", "ptr::from_ref", "Rc::as_ref",
):
    MODELS[n] = ident


@model("Deref::deref", "DerefMut::deref_mut")
def m_deref(ex, t, f, args):
    ty = selfty(ex, f)
    if ty is not None and ty.k == "adt" and ty.adt in PTRISH:
        if ty.adt in ("alloc::boxed::Box", "alloc::sync::Arc", "alloc::rc::Rc"):
            # the pointee's identity is the value of the box
            r, p = ex.target(args[0])
            return ex.finish(t, ex.read(r, p))
        return ex.finish(t, args[0])
    if ex.find_body(f) is not None:
        return NotImplemented
    r, p = ex.target(args[0])
    g = ex.read(r, p)
    return ex.finish(t, E().Call("deref", (g,)))


@model("Clone::clone")
def m_clone(ex, t, f, args):
    if ex.find_body(f) is not None and not ex.e.opaque(ex.find_body(f), f):
        b = ex.find_body(f)
        if not b.derived and b.kind != "mono":
            return NotImplemented
    r, p = ex.target(args[0])
    v = ex.read(r, p)
    ty = selfty(ex, f)
    if ty is not None and ty.k == "adt" and ty.adt in ("alloc::boxed::Box",):
        return ex.finish(t, E().Call("Box::clone", (ex.snap(v),)))
    return ex.finish(t, v)


@model("ToString::to_string")
def m_to_string(ex, t, f, args):
    ty = selfty(ex, f)
    if ty is not None and (ty.s in ("str", "alloc::string::String")):
        return ex.finish(t, ex.snap(args[0]))
    return NotImplemented


STRISH = ("str", "alloc::string::String", "&str", "&'static str", "alloc::boxed::Box<str>", "&alloc::string::String")


@model("From::from", "Into::into")
def m_from(ex, t, f, args):
    a = [ex.body.types[i] for i in f.get("a") or []]
    if len(a) >= 2 and all(x.s in STRISH or x.adt in ("alloc::borrow::Cow", "alloc::sync::Arc", "alloc::rc::Rc", "alloc::boxed::Box") for x in a[:2]):
        return ex.finish(t, args[0])
    return NotImplemented


@model("Box::new", "Arc::new", "Rc::new")
def m_box(ex, t, f, args):
    h = ("H", ex.ctx, ex.n.bb)
    ex.st[h] = args[0]
    return ex.finish(t, E().mk("ref", h, (), True))


@model("Box::new_uninit", "boxed::box_new_uninit", "Box::new_uninit_slice")
def m_boxu(ex, t, f, args):
    h = ("H", ex.ctx, ex.n.bb)
    ex.st[h] = E().mk("undef")
    return ex.finish(t, E().mk("ref", h, (), True))


@model("boxed::box_assume_init_into_vec_unsafe", "Box::assume_init", "boxed::box_new")
def m_intovec(ex, t, f, args):
    v = ex.read(*ex.target(args[0]))
    for _ in range(6):
        if v.op == "upd":
            v = v.a[2]
        elif v.op == "agg" and len(v.a[3]) == 1:
            v = v.a[3][0]
        else:
            break
    return ex.finish(t, v)


@model("mem::replace")
def m_replace(ex, t, f, args):
    r, p = ex.target(args[0])
    old = ex.read(r, p)
    ex.write(r, p, args[1], ex.span)
    return ex.finish(t, old)


@model("mem::take")
def m_take(ex, t, f, args):
    r, p = ex.target(args[0])
    old = ex.read(r, p)
    ty = ex.body.types[f["a"][0]] if f.get("a") else None
    ex.write(r, p, default_of(ty), ex.span)
    return ex.finish(t, old)


def default_of(ty):
    e = E()
    if ty is None:
        return e.Call("default", ())
    if ty.k == "adt":
        if ty.adt == "core::option::Option":
            return e.Agg("core::option::Option", "None", (), ())
        if ty.adt in COLL:
            return e.Call("[]", ())
    if ty.s == "bool":
        return e.FALSE
    if ty.s in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"):
        return e.K(0)
    if ty.s in ("f32", "f64"):
        return e.mk("k", ("f", "0.0"))
    if ty.k == "tuple" and not ty.a:
        return e.UNIT
    return e.Call("default:" + ty.s, ())


COLL = ("alloc::vec::Vec", "alloc::string::String", "smallvec::SmallVec", "std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet", "alloc::collections::btree::map::BTreeMap", "alloc::collections::btree::set::BTreeSet", "alloc::collections::vec_deque::VecDeque")


@model("Default::default")
def m_default(ex, t, f, args):
    b = ex.find_body(f)
    if b is not None:
        return NotImplemented
    ty = selfty(ex, f)
    return ex.finish(t, default_of(ty))


@model("mem::swap")
def m_swap(ex, t, f, args):
    r, p = ex.target(args[0])
    r2, p2 = ex.target(args[1])
    a = ex.read(r, p)
    b = ex.read(r2, p2)
    ex.write(r, p, b, ex.span)
    ex.write(r2, p2, a, ex.span)
    return ex.finish(t, E().UNIT)


@model("ptr::read", "intrinsics::read_via_copy")
def m_ptrread(ex, t, f, args):
    return ex.finish(t, ex.read(*ex.target(args[0])))


@model("ptr::write", "intrinsics::write_via_move")
def m_ptrwrite(ex, t, f, args):
    r, p = ex.target(args[0])
    ex.write(r, p, args[1], ex.span)
    return ex.finish(t, E().UNIT)


@model("Index::index", "IndexMut::index_mut", "slice::get_unchecked", "slice::get_unchecked_mut")
def m_index(ex, t, f, args):
    b = ex.find_body(f)
    if b is not None and b.kind != "mono":
        return NotImplemented
    ity = ex.arg_ty(t, 1)
    name = f.get("m") or f["path"].split("::")[-1]
    mut = name.endswith("_mut")
    r, p = ex.target(args[0])
    if ity is not None and ity.s == "usize":
        rec(ex, t, f, args)
        return ex.finish(t, ex.mkref(r, p + (("idx", args[1]),), mut))
    rec(ex, t, f, args)
    if mut:
        return ex.finish(t, E().Call("index_mut", (args[0], ex.snap(args[1]))))
    return ex.finish(t, E().Call("index", (ex.snap(args[0]), ex.snap(args[1]))))


def rec(ex, t, f, args, ret=None, kind="call"):
    e = E()
    ev = e.Event(kind, e.callee_name(f), path=f["path"], args=tuple(ex.snap(a) for a in args), refs=tuple(args), ret=ret, span=ex.span, ctx=ex.ctx, callee=f, argtys=[ex.arg_ty(t, i) for i in range(len(t.get("args", ())))])
    ex.events.append(ev)
    return ev


@model("slice::iter", "Vec::iter", "HashMap::iter", "BTreeMap::iter", "str::chars_")
def m_iter(ex, t, f, args):
    rec(ex, t, f, args)
    return ex.finish(t, E().Call("iter", (ex.snap(args[0]),)))


@model("slice::get_mut", "slice::first_mut", "slice::last_mut", "Vec::get_mut", "BTreeMap::get_mut", "HashMap::get_mut", "Option::as_deref_mut_")
def m_get_mut(ex, t, f, args):
    """a pointer into the collection (or nothing); the collection itself is unchanged"""
    rec(ex, t, f, args)
    return ex.finish(t, E().Call(E().callee_name(f), (asref(ex, args[0]),) + tuple(ex.snap(a) for a in args[1:]) + (ex.snap(args[0]),)))


@model("slice::iter_mut", "HashMap::iter_mut", "BTreeMap::iter_mut", "HashMap::values_mut", "BTreeMap::values_mut")
def m_iter_mut(ex, t, f, args):
    rec(ex, t, f, args)
    return ex.finish(t, E().Call("iter_mut", (asref(ex, args[0]),)))


def asref(ex, p):
    if p.op == "ref":
        return p
    return E().mk("ref", ("M", p), (), True)


@model("IntoIterator::into_iter")
def m_into_iter(ex, t, f, args):
    if ex.find_body(f) is not None:
        return NotImplemented
    ty = selfty(ex, f)
    rec(ex, t, f, args)
    if ty is not None and ty.k == "ref" and ty.mut:
        return ex.finish(t, E().Call("iter_mut", (asref(ex, args[0]),)))
    return ex.finish(t, E().Call("iter", (ex.snap(args[0]),)))


@model("Iterator::next", "DoubleEndedIterator::next_back")
def m_next(ex, t, f, args):
    if f.get("zip") and all(f["zip"][:2]):
        return ex.enter(t, zip_body(ex.e.prog, f), args, False)
    b = ex.find_body(f)
    if b is not None and not ex.e.opaque(b, f):
        return NotImplemented
    e = E()
    it = ex.read(*ex.target(args[0]))
    if ex.e.unroll and f["m"] == "next" and it.op == "call" and it.a[0] == "iter" and it.a[1][0].op == "arr" and len(it.a[1][0].a[0]) <= 24:
        xs = it.a[1][0].a[0]
        if not xs:
            return ex.finish(t, e.Agg("core::option::Option", "None", (), ()))
        r, pth = ex.target(args[0])
        ex.write(r, pth, e.Call("iter", (e.mk("arr", tuple(xs[1:])),)), ex.span, True)
        return ex.finish(t, e.Agg("core::option::Option", "Some", ("0",), (xs[0],)))
    nonce = ex.nonce()
    tag = ("n", nonce)
    ex.fa = E().killtag(ex.fa, tag)
    ct = e.Call(f["m"], (it,), nonce)
    rec(ex, t, f, args, ct)
    return ex.finish(t, ct)


IMPURE_IT = re.compile("recv")


def zip_body(prog, f):
    eng = E()
    key = ("zip", f["zip"][0], f["zip"][1])
    d = prog.__dict__.setdefault("_syn", {})
    if key in d:
        return d[key]
    tmpl = eng.drain_body(prog, {"path": "x", "id": "x", "a": []}, "#tmpl")
    b = eng.SynBody.__new__(eng.SynBody)
    b.__dict__.update(tmpl.__dict__)
    b.id = ("syn",) + key
    b.path = "<zip next>"
    b.argc = 1

    def nx(i):
        return {"k": {"fn": {"path": "core::iter::traits::iterator::Iterator::next", "id": "next", "a": [], "trait": "core::iter::traits::iterator::Iterator", "m": "next", "r": {"kind": "item", "path": "next", "id": f["zip"][i], "key": f["zip"][i], "a": [0]}}}}

    some = lambda l: {"m": [l, {"d": "Some", "vi": 1}, {"f": 0, "n": "0", "t": 2}]}
    fld = lambda n: [1, "*", {"f": 0, "n": n, "t": 2}]
    OPT = "core::option::Option"
    b.locals = [{"t": 0}, {"t": 1}, {"t": 1}, {"t": 0}, {"t": 2}, {"t": 1}, {"t": 0}, {"t": 2}, {"t": 2}]
    b.bb = [
        {"s": [[[2], {"r": "ref", "mut": True, "p": fld("a")}, ""]], "t": {"t": "call", "f": nx(0), "args": [{"m": [2]}], "dest": [3], "to": 1, "unw": None}, "sp": ""},
        {"s": [[[4], {"r": "discr", "p": [3]}, ""]], "t": {"t": "switch", "o": {"m": [4]}, "v": [["0", 5], ["1", 2]], "else": 5, "ty": 2}, "sp": ""},
        {"s": [[[5], {"r": "ref", "mut": True, "p": fld("b")}, ""]], "t": {"t": "call", "f": nx(1), "args": [{"m": [5]}], "dest": [6], "to": 3, "unw": None}, "sp": ""},
        {"s": [[[7], {"r": "discr", "p": [6]}, ""]], "t": {"t": "switch", "o": {"m": [7]}, "v": [["0", 5], ["1", 4]], "else": 5, "ty": 2}, "sp": ""},
        {"s": [[[8], {"r": "agg", "ak": "tuple", "o": [some(3), some(6)]}, ""], [[0], {"r": "agg", "ak": "adt", "adt": OPT, "v": "Some", "vi": 1, "fn": ["0"], "o": [{"m": [8]}]}, ""]], "t": {"t": "return"}},
        {"s": [[[0], {"r": "agg", "ak": "adt", "adt": OPT, "v": "None", "vi": 0, "fn": [], "o": []}, ""]], "t": {"t": "return"}},
    ]
    d[key] = b
    return b


@model("Vec::new", "Vec::with_capacity", "String::new", "String::with_capacity", "SmallVec::new", "SmallVec::with_capacity", "HashMap::new", "HashMap::with_capacity", "BTreeMap::new", "HashSet::new", "BTreeSet::new", "VecDeque::new")
def m_new(ex, t, f, args):
    return ex.finish(t, E().Call("[]", ()))


@model("Vec::push", "SmallVec::push", "String::push", "String::push_str", "VecDeque::push_back")
def m_push(ex, t, f, args):
    rec(ex, t, f, args)
    r, p = ex.target(args[0])
    old = ex.read(r, p)
    ex.write(r, p, E().mk("push", old, ex.snap(args[1])), ex.span)
    return ex.finish(t, E().UNIT)


@model("Vec::extend_from_slice", "SmallVec::extend_from_slice")
def m_extsl(ex, t, f, args):
    rec(ex, t, f, args)
    r, p = ex.target(args[0])
    ex.write(r, p, E().mk("extend", ex.read(r, p), E().Call("iter", (ex.snap(args[1]),))), ex.span)
    return ex.finish(t, E().UNIT)


@model("Vec::clear", "String::clear", "SmallVec::clear", "HashMap::clear", "BTreeMap::clear")
def m_clear(ex, t, f, args):
    rec(ex, t, f, args)
    r, p = ex.target(args[0])
    ex.write(r, p, E().Call("[]", ()), ex.span)
    return ex.finish(t, E().UNIT)


@model("Vec::truncate", "String::truncate", "SmallVec::truncate")
def m_truncate(ex, t, f, args):
    if ex.snap(args[1]) is not E().K(0):
        return NotImplemented
    return m_clear(ex, t, f, args)


@model("HashMap::insert", "BTreeMap::insert")
def m_hinsert(ex, t, f, args):
    e = E()
    ct = e.Call("insert_ret", (ex.snap(args[0]), ex.snap(args[1])), None)
    rec(ex, t, f, args, ct)
    r, p = ex.target(args[0])
    ex.write(r, p, e.mk("insert", ex.read(r, p), ex.snap(args[1]), ex.snap(args[2])), ex.span)
    return ex.finish(t, ct)


@model("FromIterator::from_iter")
def m_from_iter(ex, t, f, args):
    if ex.find_body(f) is not None:
        return NotImplemented
    return drain(ex, t, f, args[0], E().Call("[]", ()), [1, 2])


@model("Extend::extend", "Vec::extend_")
def m_extend(ex, t, f, args):
    if ex.find_body(f) is not None:
        return NotImplemented
    rec(ex, t, f, args)
    r, p = ex.target(args[0])
    ex.write(r, p, E().mk("extend", ex.read(r, p), ex.snap(args[1])), ex.span)
    return ex.finish(t, E().UNIT)


def drain(ex, t, f, it, coll, idxs):
    eng = E()
    nxk = None
    for k in reversed(f.get("nx") or []):
        if k:
            nxk = k
            break
    rec(ex, t, f, [it])
    if nxk is None:
        return ex.finish(t, eng.mk("extend", coll, ex.snap(it)))
    nx = {"path": "core::iter::traits::iterator::Iterator::next", "id": "next", "a": [], "trait": "core::iter::traits::iterator::Iterator", "m": "next", "r": {"kind": "item", "path": "next", "id": nxk, "key": nxk, "a": [0]}}
    b = eng.drain_body(ex.e.prog, nx, nxk)
    # zip iterators need their own keys: taken from the original callee when present
    return ex.enter(t, b, [it, coll], False)


PRIMS = {"u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64", "bool", "char", "u128", "i128"}
OPS = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor", "shl": "Shl", "shr": "Shr"}


def _arith(ex, t, f, args):
    ty = selfty(ex, f)
    if ex.find_body(f) is not None and ex.find_body(f).kind != "mono":
        return NotImplemented
    b = ty.strip() if ty is not None else None
    if b is None or b.s not in PRIMS:
        return NotImplemented
    fl = b.s in ("f32", "f64")
    x, y = ex.snap(args[0]), ex.snap(args[1])
    return ex.finish(t, E().arith(OPS[f["m"]], x, y, fl))


for tr, m in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Rem", "rem"), ("BitAnd", "bitand"), ("BitOr", "bitor"), ("BitXor", "bitxor"), ("Shl", "shl"), ("Shr", "shr")):
    MODELS[f"{tr}::{m}"] = _arith


def _arith_assign(ex, t, f, args):
    ty = selfty(ex, f)
    b = ty.strip() if ty is not None else None
    if b is None or b.s not in PRIMS:
        return NotImplemented
    fl = b.s in ("f32", "f64")
    r, p = ex.target(args[0])
    ex.write(r, p, E().arith(OPS[f["m"][:-7]], ex.read(r, p), ex.snap(args[1]), fl), ex.span)
    return ex.finish(t, E().UNIT)


for tr, m in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("BitAnd", "bitand"), ("BitOr", "bitor"), ("BitXor", "bitxor")):
    MODELS[f"{tr}Assign::{m}_assign"] = _arith_assign


@model("PartialEq::eq", "PartialEq::ne")
def m_eq(ex, t, f, args):
    b = ex.find_body(f)
    if b is not None and f["m"] == "eq":
        return NotImplemented
    e = E()
    x, y = ex.snap(args[0]), ex.snap(args[1])
    r = e.arith("Eq", x, y)
    return ex.finish(t, r if f["m"] == "eq" else e.neg(r))


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def m_ord(ex, t, f, args):
    ty = selfty(ex, f)
    b = ty.strip() if ty is not None else None
    if b is None or b.s not in PRIMS:
        return NotImplemented
    e = E()
    fl = b.s in ("f32", "f64")
    return ex.finish(t, e.arith({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[f["m"]], ex.snap(args[0]), ex.snap(args[1]), fl))


def m_len(ex, t, f, args):
    rec(ex, t, f, args)
    return ex.finish(t, E().mk("len", ex.snap(args[0])))


for n in ("Vec::len", "slice::len", "String::len", "str::len", "SmallVec::len", "HashMap::len", "BTreeMap::len"):
    MODELS[n] = m_len


def m_isempty(ex, t, f, args):
    e = E()
    return ex.finish(t, e.arith("Eq", e.mk("len", ex.snap(args[0])), e.K(0)))


for n in ("Vec::is_empty", "slice::is_empty", "String::is_empty", "str::is_empty", "SmallVec::is_empty", "HashMap::is_empty", "BTreeMap::is_empty"):
    MODELS[n] = m_isempty


@model("intrinsics::discriminant_value", "mem::discriminant")
def m_discr(ex, t, f, args):
    r, p = ex.target(args[0])
    v = ex.read(r, p)
    ty = ex.body.types[f["a"][0]] if f.get("a") else None
    return ex.finish(t, ex.discr(v, ty))


@model("intrinsics::unlikely", "intrinsics::likely", "hint::likely", "hint::unlikely")
def m_likely(ex, t, f, args):
    return ex.finish(t, args[0])


@model("Context::with_context", "Context::context")
def m_context(ex, t, f, args):
    """anyhow: the success value passes through, anything else becomes an error carrying the context"""
    e = E()
    v = ex.snap(args[0])
    ty = selfty(ex, f)
    opt = ty is not None and ty.k == "adt" and ty.adt == "core::option::Option"
    if not opt and not (ty is not None and ty.k == "adt" and ty.adt == "core::result::Result"):
        return NotImplemented
    good, badv = ("Some", "None") if opt else ("Ok", "Err")
    R = "core::result::Result"
    adt = ty.adt

    def ok(x):
        return e.Agg(R, "Ok", ["0"], [x])

    err = e.Agg(R, "Err", ["0"], [e.Call("anyhow::context", (v,), None)])
    if v.op == "agg":
        return ex.finish(t, ok(v.a[3][0]) if v.a[1] == good else err)
    return ex.fork(t, v, adt, [(good, ok(e.mk("vf", v, good, "0"))), (badv, err)])
