"""Addressing: the address every weight accessor computes is decomposed into a sum of parameters shifted by amounts that are
polynomials over the table's fields (sums, bit-ors, shifts, multiplications by powers of two; widening casts must come before the
shift).  The fields are replaced by what the constructor stores in them, in terms of B(x) = bits needed for 0..x-1 (recognised
from its bit-twiddling definitions).  Injectivity and bounds are then inequalities between polynomials that differ by a constant:
shift(model) >= B(state size), shift(feature) >= shift(model) + B(model count), log2(allocated) >= shift(feature) + B(feature
count), where the state size, model count and feature count are the ones the table was made for.  All accessors must use the same
address, and the state slice starts there and has the state size.

Stack: every reduction's factory makes its sub-model for a number of models that is a multiple of the number it was given, tells
its wrapper the number it was given, and every call into the sub-model uses an offset inside that number; the base learner
allocates the number of models it was given, for the configured number of bits, and every state slot it uses exists."""
import re
import q, reds, cfg
from engine import Engine, Term, mk, pp, proj, subterms, children
import checks.c19 as c19
import checks.c06 as c06

WIDE = ("usize", "u64", "u128", "i128")


class P(dict):
    """polynomial of shift amounts: atom -> coefficient, () constant"""


def padd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r


def amount(t, env):
    """a shift amount as a linear form over B(..) atoms and fields"""
    if t.op == "k" and isinstance(t.a[0], int):
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "cast":
        return amount(t.a[1], env)
    if t.op == "bin" and t.a[0] in ("Add", "Sub"):
        x, y = amount(t.a[1], env), amount(t.a[2], env)
        r = bits(t, env)
        if r is not None:
            return r
        if x is None or y is None:
            return None
        return padd(x, y, 1 if t.a[0] == "Add" else -1)
    r = bits(t, env)
    if r is not None:
        return r
    if t.op == "phi" and env.get("e") is not None:
        vs = flat(env["e"], t)
        ps = [amount(v, env) for v in vs]
        ps = [x for x in ps if x is not None]
        if ps and all(x == ps[0] for x in ps):
            return ps[0]
        return None
    k = leaf(t)
    if k is not None:
        return dict(env["fields"][k]) if k in env.get("fields", {}) else {("v", k): 1}
    return None


def flat(e, t):
    out, seen, st = [], {t}, [t]
    while st:
        for x in e.phi_in.get(st.pop(), ()):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi":
                st.append(x)
            elif x.op != "zst":
                out.append(x)
    return out


def leaf(t):
    """a field or parameter, newtypes opened"""
    t = strip(t)
    if t.op in ("par", "f"):
        return pp(t)
    return None


def strip(t):
    while t.op == "cast":
        t = t.a[1]
    while t.op == "f" and t.a[1] == "0" and t.a[0].op in ("par", "f", "deref"):
        t = t.a[0]
    if t.op == "agg" and len(t.a[3]) == 1:
        return strip(t.a[3][0])
    return t


def bits(t, env):
    """number of bits needed for 0..x-1"""
    if t.op == "cast":
        return bits(t.a[1], env)
    # W - leading_zeros(x - 1)
    if t.op == "bin" and t.a[0] == "Sub" and t.a[1].op == "k":
        y = t.a[2]
        while y.op == "cast":
            y = y.a[1]
        if y.op == "call" and str(y.a[0]).endswith("leading_zeros") and t.a[1].a[0] in (32, 64, 8, 16, 128):
            x = y.a[1][0]
            if x.op == "bin" and x.a[0] == "Sub" and x.a[2].op == "k" and x.a[2].a[0] == 1:
                v = x.a[1]
                w = {"u64": 64, "usize": 64, "u32": 32, "u16": 16, "u8": 8}.get(v.a[0].s if v.op == "cast" and hasattr(v.a[0], "s") else v.a[0] if v.op == "cast" else None)
                if w is not None and w != t.a[1].a[0]:
                    return None
                return size_bits(v, env)
    if t.op == "call" and str(t.a[0]).endswith("trailing_zeros"):
        y = t.a[1][0]
        while y.op == "cast":
            y = y.a[1]
        if y.op == "call" and str(y.a[0]).endswith("next_power_of_two"):
            return size_bits(y.a[1][0], env)
    if t.op == "call" and str(t.a[0]).endswith("ilog2"):
        y = t.a[1][0]
        while y.op == "cast":
            y = y.a[1]
        if y.op == "call" and str(y.a[0]).endswith("next_power_of_two"):
            return size_bits(y.a[1][0], env)
    return None


def size_bits(v, env):
    k = leaf(v)
    if k is None:
        x = strip(v)
        if x.op == "k":
            return {(): max(x.a[0] - 1, 0).bit_length()}
        return None
    return {("B", env.get("sizes", {}).get(k, k)): 1}


def log2(t, env):
    """exponent of a power of two"""
    if t.op == "k" and isinstance(t.a[0], int) and t.a[0] > 0 and t.a[0] & (t.a[0] - 1) == 0:
        n = t.a[0].bit_length() - 1
        return {(): n} if n else {}
    if t.op == "cast":
        return log2(t.a[1], env)
    if t.op == "bin" and t.a[0] == "Mul":
        x, y = log2(t.a[1], env), log2(t.a[2], env)
        return None if x is None or y is None else padd(x, y)
    if t.op == "bin" and t.a[0] == "Shl":
        x, y = log2(t.a[1], env), amount(t.a[2], env)
        return None if x is None or y is None else padd(x, y)
    if t.op == "call" and re.search(r"::pow$", str(t.a[0])):
        b, x = t.a[1][0], amount(t.a[1][1], env)
        if b.op == "k" and b.a[0] == 2:
            return x
    if t.op == "call" and str(t.a[0]).endswith("next_power_of_two"):
        return size_bits(t.a[1][0], env)
    return None


def comps(t, env, wide=False):
    """address as [(leaf, shift)]; None when it is something else"""
    if t.op == "bin" and t.a[0] in ("Add", "BitOr", "BitXor"):
        x, y = comps(t.a[1], env), comps(t.a[2], env)
        return None if x is None or y is None else x + y
    if t.op == "bin" and t.a[0] in ("Shl", "Mul"):
        s = amount(t.a[2], env) if t.a[0] == "Shl" else log2(t.a[2], env)
        x = t.a[1]
        if s is None and t.a[0] == "Mul":
            s, x = log2(t.a[1], env), t.a[2]
        c = comps(x, env)
        if s is None or c is None or not all(w for _, _, w in c):
            return None
        return [(l, padd(p, s), w) for l, p, w in c]
    if t.op == "call" and re.search(r"::(wrapping_add|wrapping_shl|wrapping_mul)$", str(t.a[0])):
        return None
    k = leaf(t)
    if k is not None:
        return [(k, {}, t.op == "cast" and tyname(t) in WIDE or False)]
    if t.op == "k" and t.a[0] == 0:
        return []
    return None


def tyname(t):
    return t.a[0].s if hasattr(t.a[0], "s") else str(t.a[0])


def ge(a, b):
    """a - b is a non-negative constant"""
    d = padd(a, b, -1)
    return all(k == () for k in d) and d.get((), 0) >= 0


def show(p):
    return " + ".join((f"{v}*" if v != 1 and k != () else "") + (str(v) if k == () else f"{k[0]}({k[1]})" if k[0] == "B" else str(k[1])) for k, v in p.items()) or "0"


def run(ck):
    p = ck.prog()
    tr = c19.weights_trait(p)
    dw = None
    for i in p.impls_of(tr) if tr else ():
        dw = i["self_ty"].adt
        table(ck, p, tr, dw)
    ck.anchor("weight table", dw)
    if dw:
        stack(ck, p, dw)
        depth(ck, p)
        slots(ck, p, tr)


# ------------------------------------------------------------------ the table
def table(ck, p, tr, dw):
    nm = dw.split("::")[-1]
    acc = {b.m: b for b in p.bodies.values() if b.kind == "method" and b.trait == tr and b.self_ty is not None and b.self_ty.isadt(dw)}
    ck.floor("accessors", len(acc), 4)
    ctors = makers(p, dw)
    ck.floor("constructors of the table", len(ctors), 1)
    addr = {}
    for m, b in sorted(acc.items()):
        e = Engine(p, b)
        ix = [x for x in e.events if x.kind == "call" and re.search(r"Index(Mut)?::index(_mut)?$|slice::(get|get_mut|get_unchecked|get_unchecked_mut)$", x.name)]
        # places whose base is an earlier place's result narrow that place
        nested = [x for x in ix if any(s is y.args[1] or y.ret is not None and s is y.ret for y in ix if y is not x for s in subterms(x.args[0]))] if len(ix) == 2 else []
        top = [x for x in ix if x not in nested]
        if not ck.ob(f"address:{m}", len(top) == 1 and len(nested) <= 1, f"{m} addresses the table in {len(ix)} places", b.path):
            continue
        a = top[0].args[1]
        ln = None
        d = dict(zip(a.a[2], a.a[3])) if a.op == "agg" and "::Range" in a.a[0] else {}
        if "start" in d:
            a = d["start"]
            ln = ("end", a, d["end"]) if "end" in d else ("open", a, None)
        if nested:
            y = nested[0].args[1]
            if y.op == "agg" and y.a[0].endswith("::RangeTo") and ln:
                ln = ("len", a, y.a[3][0])
            elif y.op == "agg" and "::Range" in y.a[0]:
                ln = ("other", a, y)
            elif not (y.op == "k" and y.a[0] == 0):
                a = mk("bin", "Add", a, y)
            else:
                ln = None
        ix = top
        addr[m] = (b, e, a, ln, ix[0])
    # the parameters by role: their types
    for m, (b, e, a, ln, x) in addr.items():
        role = {}
        for i in range(2, b.argc + 1):
            role[b.lname(i)] = b.lty(i).strip().s.split("::")[-1]
        cs = comps(a, {})
        if not ck.ob(f"form:{m}", cs is not None and len(cs) == 2 and all(l in role for l, _, _ in cs) and len({role[l] for l, _, _ in cs}) == 2, f"{m} does not address the table by feature and sub-model alone, each widened and then shifted by a fixed amount: {pp(a)[:200]}", q.loc(x)):
            continue
        by = {role[l]: s for l, s, _ in cs}
        addr[m] += (by,)
        if ln:
            want = state_len(p, dw)
            how, _, end = ln
            ok = how == "len" and leaf(end) in want or how == "end" and end.op == "bin" and end.a[0] == "Add" and (end.a[1] is a and leaf(end.a[2]) in want or end.a[2] is a and leaf(end.a[1]) in want)
            ck.ob(f"slice:{m}", ok, f"{m} hands out a slice that is not the state of the addressed weight: it ends at {pp(end)[:200] if end is not None else 'the end of the table'}", q.loc(x))
    ks = [m for m in addr if len(addr[m]) == 6]
    for m in ks[1:]:
        ck.ob(f"same:{m}", addr[m][5] == addr[ks[0]][5], f"{m} and {ks[0]} address different cells for the same weight", addr[m][0].path)
    if not ks:
        return
    by = addr[ks[0]][5]
    for c in ctors:
        layout(ck, p, dw, by, c)


def state_len(p, dw):
    return {f"self.{f['n']}" for v in p.adts[dw]["vs"] for f in v["f"] if p.adts[dw]["types"][f["t"]].s.endswith("StateIndex")}


def makers(p, dw):
    """functions that put a table together from its parts (the derived reader and copier aside)"""
    out = []
    for b in p.bodies.values():
        if b.derived or b.crate not in p.crates or b.kind not in ("fn", "method", "closure"):
            continue
        if any(r.get("r") == "agg" and r.get("adt") == dw for bb in b.bb for pl, r, sp in bb["s"]):
            out.append(b if b.kind != "closure" else p.bodies.get(b.root, b))
    return out


def layout(ck, p, dw, by, b):
    nm = b.path.split("::")[-1]
    e = Engine(p, b, opaque=lambda b, f: bool(re.search(r"(state|weight)_at(_mut)?$", f["path"])))
    vals = []
    for x in e.events:
        if x.kind == "ret" and x.ctx.body is e.entry:
            for s in c06.deep(e, x.args[0]):
                if s.op == "agg" and s.a[0] == dw and s not in vals:
                    vals.append(s)
    if not ck.ob(f"make:{nm}", vals, f"{b.path}: the table it makes was not found", b.path):
        return
    tys = {f["n"]: p.adts[dw]["types"][f["t"]].s for v in p.adts[dw]["vs"] for f in v["f"]}
    for v in vals:
        d = dict(zip(v.a[2], v.a[3]))
        size = {}
        for f, t in tys.items():
            r = t.split("::")[-1]
            if r in ("FeatureIndex", "ModelIndex", "StateIndex"):
                size[r] = leaf(d[f]) or pp(d[f])
        env0 = {"e": e}
        fields = {}
        for f, t in tys.items():
            x = amount(d[f], env0) if t in ("u8", "u16", "u32", "u64", "usize") else None
            if x is not None:
                fields[f"self.{f}"] = x
        env = {"e": e}
        vec = [d[f] for f, t in tys.items() if t.startswith("alloc::vec::Vec")]
        ln = length(e, vec[0], env) if vec else None
        if not ck.ob(f"length:{nm}", ln is not None, f"{b.path} allocates a table whose size is not a product of the sizes rounded up to powers of two: {pp(vec[0])[:200] if vec else ''}", b.path):
            continue
        sub = {r: subst(s, fields) for r, s in by.items()}
        B = {r: {("B", s): 1} for r, s in size.items()}
        # a table made from an exported one takes the shifts over: they are checked to be the sizes' bits before (see below)
        taken = {k for x in sub.values() for k in x if k[:1] == ("v",)}
        if taken:
            checked = trusted(p, e, b, tys, size)
            ck.ob(f"taken:{nm}", checked is not None, f"{b.path} takes shifts over without a check that they fit the sizes", b.path)
            if checked is None:
                continue
            sub = {r: subst(s, checked, "v") for r, s in sub.items()}
            ln = subst(ln, checked, "v")
        fi, mi = sub.get("FeatureIndex"), sub.get("ModelIndex")
        if not ck.ob(f"roles:{nm}", fi is not None and mi is not None and all(r in B for r in ("FeatureIndex", "ModelIndex", "StateIndex")), f"sizes and parameters of the table do not match up in {b.path}", b.path):
            continue
        order = [("ModelIndex", mi, "FeatureIndex", fi), ("FeatureIndex", fi, "ModelIndex", mi)]
        ok = False
        for lo, lp, hi, hp in order:
            if ge(lp, B["StateIndex"]) and ge(hp, padd(lp, B[lo])) and ge(ln, padd(hp, B[hi])):
                ok = True
        ck.ob(f"layout:{nm}", ok, f"{b.path}: cells overlap or lie outside the table: features are shifted by {show(fi)}, sub-models by {show(mi)}, the table has 2^({show(ln)}) cells", b.path)


def subst(p, fields, tag="v"):
    r = {}
    for k, v in p.items():
        if k[:1] == (tag,) and k[1] in fields:
            for k2, v2 in fields[k[1]].items():
                r[k2] = r.get(k2, 0) + v * v2
        else:
            r[k] = r.get(k, 0) + v
    return {k: v for k, v in r.items() if v}


def length(e, t, env):
    """log2 of the length of a freshly made vector"""
    for x in set(subterms(t)):
        if x.op == "call" and re.search(r"from_elem$", str(x.a[0])):
            return log2(x.a[1][1], env)
        if x.op == "call" and re.search(r"Vec.*::resize$|Iterator::take$|iter::repeat_n$", str(x.a[0])):
            ys = [r for r in (log2(y, env) for y in x.a[1] if y.op != "k") if r is not None]
            if len(ys) == 1:
                return ys[0]
        if x.op == "agg" and str(x.a[0]).endswith("::Take"):
            ys = [r for r in (log2(y, env) for y in x.a[3] if y.op != "k") if r is not None]
            if len(ys) == 1:
                return ys[0]
    if t.op == "phi":
        for y in flat(e, t):
            r = length(e, y, env)
            if r is not None:
                return r
    # filled in place afterwards
    ls = [x for x in e.events if x.kind == "call" and re.search(r"from_elem$", x.name) and "f32" in (x.dest_ty.s if x.dest_ty is not None else "")]
    if len({x.args[1] for x in ls}) == 1:
        return log2(ls[0].args[1], env)
    return None


def trusted(p, e, b, tys, size):
    """fields of the source that a validation compares with the bits of its sizes, which every caller runs before"""
    src = b.lty(1).strip().adt if b.argc else None
    if not src:
        return None
    val = [x for x in p.bodies.values() if x.kind in ("method", "fn") and x.crate in p.crates and not x.derived and x.argc == 1 and x.lty(1).strip().isadt(src) and x.lty(0).isadt("core::result::Result")]
    for v in val:
        ev = Engine(p, v, opaque=lambda b, f: False)
        good = [x for x in ev.events if x.kind == "ret" and x.args[0].op == "agg" and x.args[0].a[1] == "Ok"]
        if not good:
            continue
        # equalities every successful validation has passed
        dm = c19.doms(ev)
        eqs = None
        for g in good:
            s = {(t, l) for t, l in dm.get(g.xn, ())}
            eqs = s if eqs is None else eqs & s
        res = {}
        env = {"e": ev}
        for t, l in eqs or ():
            if t.op == "bin" and (t.a[0] == "Eq" and l is True or t.a[0] == "Ne" and l is False):
                for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                    k, a = leaf(x), checked_bits(y, ev)
                    if k and a is not None:
                        nm = b.lname(1)
                        res[re.sub(r"^self|^" + re.escape(v.lname(1) or "self"), nm, k)] = {("B", re.sub(r"^" + re.escape(v.lname(1) or "self"), nm, z)): 1 for z in [a]}
        if res:
            return res
    return None


def checked_bits(t, ev):
    """field whose bits t is, through `size.checked_sub(1).map(bits)`"""
    while t.op == "cast":
        t = t.a[1]
    if t.op == "phi":
        for y in flat(ev, t):
            r = checked_bits(y, ev)
            if r:
                return r
        return None
    r = bits(t, {"e": ev})
    if r and len(r) == 1:
        return list(r)[0][1]
    if t.op == "f" or t.op == "as":
        for s in subterms(t):
            if s is not t and s.op == "bin" and s.a[0] == "Sub":
                r = checked_bits(s, ev)
                if r:
                    return r
    if t.op == "bin" and t.a[0] == "Sub" and t.a[1].op == "k":
        for s in subterms(t.a[2]):
            if s.op == "call" and str(s.a[0]).endswith("leading_zeros"):
                for z in subterms(s.a[1][0]):
                    if z.op == "call" and str(z.a[0]).endswith("checked_sub") and z.a[1][1].op == "k" and z.a[1][1].a[0] == 1:
                        return leaf(z.a[1][0])
                    if z.op == "bin" and z.a[0] == "Sub" and z.a[2].op == "k" and z.a[2].a[0] == 1:
                        return leaf(z.a[1])
    return None


# ------------------------------------------------------------------ the stack
def models(t):
    """(parameter, factor) of a number of models"""
    t = strip(t)
    if t.op == "bin" and t.a[0] == "Mul":
        x, y = strip(t.a[1]), strip(t.a[2])
        for a, b in ((x, y), (y, x)):
            if b.op == "k":
                m = models(a)
                return (m[0], m[1] * b.a[0]) if m else None
        return None
    k = leaf(t)
    return (k, 1) if k else None


def stack(ck, p, dw):
    op = re.compile(r"create_reduction$|parse_config$|check_and_get_reason$|ReductionWrapper::new$|compile_interactions$|" + re.escape(dw) + "::new$")
    n = 0
    kids = {}
    for ty, b in sorted(reds.factories(p).items()):
        sh = ty.split("::")[-1]
        if b.argc < 4:
            ck.ob(f"factory:{sh}", False, "factory without a number of models", b.path)
            continue
        n += 1
        par = b.lname(4)
        e = Engine(p, b, opaque=lambda b, f: bool(op.search(f["path"])))
        made = [x for x in e.events if x.kind == "call" and re.search(r"create_reduction$", x.path or "")]
        wrap = [x for x in e.events if x.kind == "call" and re.search(r"ReductionWrapper::new$", x.path or "")]
        tab = [x for x in e.events if x.kind == "call" and re.search(re.escape(dw) + "::new$", x.path or "")]
        ck.ob(f"wrap:{sh}", wrap and all(models(x.args[3]) == (par, 1) for x in wrap), f"the wrapper of {sh} is told another number of models than the reduction was made for", q.loc(wrap[0]) if wrap else b.path)
        ck.ob(f"sub:{sh}", made or tab, f"{sh} makes neither a sub-model nor a weight table", b.path)
        fac = None
        for x in made:
            m = models(x.args[2])
            ck.ob(f"count:{sh}", m is not None and m[0] == par and m[1] >= 1, f"{sh} makes its sub-model for {pp(x.args[2])[:80]} models instead of a multiple of the number it was given", q.loc(x))
            if m:
                fac = m[1] if fac is None else min(fac, m[1])
        for x in tab:
            a = x.args
            ck.ob(f"table:{sh}:models", models(a[1]) == (par, 1), f"{sh} allocates weights for {pp(a[1])[:80]} sub-models", q.loc(x))
            t = strip(a[0])
            ok = t.op == "bin" and t.a[0] == "Shl" and strip(t.a[1]).op == "k" and strip(t.a[1]).a[0] == 1 and (leaf(t.a[2]) or "").endswith("num_bits")
            ck.ob(f"table:{sh}:features", ok, f"{sh} allocates weights for {pp(a[0])[:80]} features instead of 2^bits", q.loc(x))
        for v in wrap:
            for s in set(subterms(v.args[1])):
                if s.op == "agg" and s.a[0] in reds.impl_types(p):
                    kids[s.a[0]] = fac
    ck.floor("factories", n, 8)
    c = 0
    for ty in reds.impl_types(p):
        for m in ("predict", "learn", "predict_then_learn", "sensitivity"):
            b = reds.impl_types(p)[ty].get(m)
            if b is None:
                continue
            e = reds.explore(p, b, ty)
            for x in reds.child_calls(e):
                if x.name == "child.sensitivity":
                    continue
                off = [a for a, t in zip(x.args[1:], offty(x)) if t]
                if not off:
                    continue
                c += 1
                k = strip(off[-1])
                fac = kids.get(ty)
                ok = k.op == "k" and isinstance(k.a[0], int) and k.a[0] == 0 or (k.op == "k" and fac is not None and 0 <= k.a[0] < fac)
                ck.ob(f"offset:{ty.split('::')[-1]}:{m}:{c}", ok, f"the sub-model is called with offset {pp(off[-1])[:80]}, but was made for {fac} sub-model(s)", q.loc(x))
    ck.floor("calls into sub-models", c, 12)


def depth(ck, p):
    """a wrapper adds what it owes to the depth before the call and takes the same away afterwards"""
    n = 0
    for b in sorted(p.bodies.values(), key=lambda b: b.path):
        if b.kind != "method" and b.kind != "fn" or b.self_ty is None and "::ReductionWrapper::" not in b.path or b.argc < 2:
            continue
        if "ReductionWrapper" not in b.path or b.trait is not None:
            continue
        ds = [b.lname(i) for i in range(1, b.argc + 1) if b.lty(i).k == "ref" and b.lty(i).mut and b.lty(i).strip().s.endswith("::DepthInfo")]
        if not ds:
            continue
        e = Engine(p, b)
        calls = [x for x in e.events if x.kind == "call" and re.search(r"ReductionImpl::\w+$", x.name)]
        writes = [x for x in e.events if x.kind == "write" and x.args[0].op == "ref" and any(s.op == "par" and s.a[0] in ds for s in subterms(x.args[0])) and not any(y.op == "call" for y in subterms(x.args[0]))]
        mname = b.path.split("::")[-1]
        for x in calls:
            n += 1
            given = [a for a in x.args if any(s.op == "par" and s.a[0] in ds for s in subterms(a))]
            up = [lin(s.a[2]) for a in given for s in [a] if s.op == "upd"]
            after = [lin(w.args[1]) for w in writes if any(s is x.ret or s.op == "post" and s.a[0] is x.ret or s.op == "call" and s.a[0] == x.name for s in subterms(w.args[1]))]
            back = [w for w in writes if w.args[1].op in ("par", "f") or lin(w.args[1]) is not None and len(lin(w.args[1])) == 1]
            if not up and not after:
                ck.ob(f"depth:{mname}", True, "", b.path)
                continue
            ok = len(up) == 1 and up[0] is not None and len(up[0]) == 2
            if ok:
                own = [k for k, v in up[0].items() if k in ds or any(k.startswith(d + ".") for d in ds)]
                ok = len(own) == 1 and up[0][own[0]] == 1
            if ok:
                owed = {k: v for k, v in up[0].items() if k != own[0]}
                ok = all(k.startswith("prod(") and "num_models_below" in k for k in owed)
                neg = {k: -v for k, v in owed.items()}
                ok = ok and (any(a is not None and {k: v for k, v in a.items() if k in owed} == neg and sum(v for k, v in a.items() if k not in owed) == 1 for a in after) or any(lin(w.args[1]) == {own[0]: 1} for w in back))
            ck.ob(f"depth:{mname}", ok, f"{b.path} does not restore the depth it changed, or the amount is not the models below times the offset", q.loc(x))
    ck.floor("calls through the wrapper with a depth", n, 3)


def lin(t):
    """a newtyped sum as {summand: coefficient}"""
    while t.op == "cast" or t.op == "agg" and len(t.a[3]) == 1:
        t = t.a[1] if t.op == "cast" else t.a[3][0]
    if t.op == "bin" and t.a[0] in ("Add", "Sub"):
        x, y = lin(t.a[1]), lin(t.a[2])
        return padd(x, y, 1 if t.a[0] == "Add" else -1)
    if t.op == "bin" and t.a[0] == "Mul":
        return {"prod(" + ", ".join(sorted(leaf(s) or pp(s) for s in t.a[1:])) + ")": 1}
    return {leaf(t) or pp(t): 1}


def offty(x):
    """which arguments are model offsets: the last one of a wrapper's methods"""
    return [False] * (len(x.args) - 2) + [True]


def slots(ck, p, tr):
    """state slots used by the callbacks exist"""
    n = 0
    for b in p.bodies.values():
        if b.kind != "closure" or b.crate not in p.crates:
            continue
        root = p.bodies.get(b.root)
        if root is None or root.self_ty is None or root.self_ty.k != "adt" or root.self_ty.adt not in reds.impl_types(p):
            continue
        if b.argc < 2 or not re.search(r"^&(mut )?\[f32\]$", b.lty(b.argc).s):
            continue
        size = made_size(p, root.self_ty.adt)
        e = Engine(p, b)
        st = e.params[-1]
        used = set()
        for x in e.events:
            for a in tuple(x.args) + tuple(x.refs or ()):
                if not isinstance(a, Term):
                    continue
                for s in set(subterms(a)):
                    if s.op == "idx" and s.a[0] is st or s.op == "ref" and s.a[0] == ("M", st) and s.a[1] and s.a[1][0][0] == "idx":
                        i = s.a[1] if s.op == "idx" else s.a[1][0][1]
                        i = i.a[0] if isinstance(i, Term) and i.op == "k" else i
                        used.add(i)
        for x in e.events:
            if x.kind == "assert" and x.name == "bounds":
                i = x.args[2] if len(x.args) > 2 else None
                if isinstance(i, Term) and i.op == "k":
                    used.add(i.a[0])
                elif i is not None and isinstance(i, int):
                    used.add(i)
        n += 1
        ck.ob(f"slots:{b.path.split('::')[-2]}", size is not None and all(isinstance(i, int) and 0 <= i < size for i in used), f"uses state slots {sorted(map(str, used))} of {size}", b.path)
        want = [x.args for x in e.events if x.kind == "assert"]
    ck.floor("state callbacks", n, 2)


def made_size(p, ty):
    """the state size constant in the constructor of the base learner"""
    for b in p.bodies.values():
        if b.crate in p.crates and b.kind in ("fn", "method") and not b.derived:
            if any(r.get("r") == "agg" and r.get("adt") == ty for bb in b.bb for pl, r, sp in bb["s"]):
                e = Engine(p, b, opaque=lambda b, f: bool(re.search(r"Weights::new$|compile_interactions$", f["path"])))
                for x in e.events:
                    if x.kind == "call" and re.search(r"Weights::new$", x.path or ""):
                        k = strip(x.args[2])
                        if k.op == "k":
                            return k.a[0]
    return None
