"""Hash formulas are extracted symbolically and compared.  For every kind of feature the formula of the parsers (ParsedFeature) and
of the inverse table (Feature) must be the same function of namespace, seed, name, value and offset, and the conversion between
the two must carry each part over.  The interaction formula used while walking weights, the public pair and triple iterators and
the inverse table's recurrence (unfolded for two and three terms) must be one formula over the terms in the order of the
namespaces, and the value the product of the terms' values.  Every feature a parser adds must carry one of the kinds' formulas
with the hash of the very namespace it is added to, and the parts must come from where the format says: the key that belongs to
the value, the text of a string value, the position in an array; numbers give their own value and everything else counts as 1.
The name of the default namespace, the label fields and the positions of label tokens are compared the same way."""
import re
import q, tab
from engine import Engine, Term, mk, pp, subterms
import flow
from flow import peel, flat, typeof
import checks.c11 as c11
import checks.c19 as c19


def run(ck):
    p = ck.prog()
    formulas(ck, p)
    interactions(ck, p)
    parsers(ck, p)
    vw(ck, p)
    namespaces(ck, p)
    labels(ck, p)


def op(p, keep=""):
    o = c11.opaque(p)
    return lambda b, f: o(b, f) or bool(keep and re.search(keep, f["path"]))


def strip(t):
    """conversions of texts and numbers opened"""
    while True:
        t0 = t
        t = peel(t)
        if t.op == "call" and len(t.a[1]) == 1 and re.search(r"(as_bytes|as_ref|to_string|to_owned|as_str|Deref::deref|deref|Clone::clone|clone|as_bytes|From::from|Into::into|Borrow::borrow|trim|copied|cloned)$", str(t.a[0])) and not str(t.a[0]).endswith("Value::as_str"):
            t = t.a[1][0]
        if t is t0:
            return t


def nm(t):
    return str(t.a[0]) if t.op == "call" else ""


def ns_of(e, t):
    """the namespace whose hash t is"""
    t = peel(t)
    if t.op == "f" and t.a[1] == "0":
        t = peel(t.a[0])
    if t.op == "call" and nm(t).endswith("Namespace::hash"):
        return peel(t.a[1][0])
    if t.op == "par" or t.op == "f" and t.a[0].op == "par":
        return t
    return None


def kind(e, h):
    """('simple', ns, name) | ('str', ns, name, value) | ('anon', ns, offset) of a hash"""
    h = peel(h)
    if h.op == "f" and h.a[1] == "0" and peel(h.a[0]).op == "agg":
        h = peel(peel(h.a[0]).a[3][0])
    if h.op == "call" and nm(h).endswith("hash_bytes"):
        x, s = strip(h.a[1][0]), peel(h.a[1][1])
        if s.op == "call" and nm(s).endswith("hash_bytes"):
            n = ns_of(e, s.a[1][1])
            return ("str", n, strip(s.a[1][0]), x) if n is not None else None
        n = ns_of(e, s)
        return ("simple", n, x) if n is not None else None
    a = None
    if h.op == "call" and nm(h).endswith("wrapping_add"):
        a = h.a[1]
    elif h.op == "bin" and h.a[0] == "Add":
        a = h.a[1:]
    if a:
        for x, y in (a, a[::-1]):
            if x.op != "k":
                n = ns_of(e, x)
                if n is not None and (x.op != "par" or True):
                    if peel(y).op == "call" and nm(peel(y)).endswith("Namespace::hash"):
                        continue
                    return ("anon", n, peel(y))
    return None


def part(t):
    """name of the variant's field a part comes from"""
    t = strip(t)
    return (t.a[1], t.a[2]) if t.op == "vf" else ("f", t.a[1]) if t.op == "f" else ("par", t.a[0]) if t.op == "par" else None


def formula(p, b, adt):
    """{variant: (kind, {part: field}, ns)}"""
    out = {}
    for v, e in tab.by_variant(p, b, 0, adt, opaque=op(p)):
        ks = []
        for r, t in tab.rets(e):
            t = peel(t)
            for y in ([t] if t.op != "agg" else list(t.a[3])):
                for z in tab.alts(e, y):
                    ks.append(kind(e, z))
        out[v["n"]] = (ks, e, [f["n"] for f in v["f"]])
    return out


def hashers(p):
    """(enum, function) for every method of an enum that gives a feature hash"""
    for b in sorted(p.bodies.values(), key=lambda b: b.path):
        if b.kind == "method" and not b.derived and b.crate in p.crates and b.lty(0).s.endswith("FeatureHash") and b.argc == 2:
            t = b.lty(1).strip()
            if t.k == "adt" and t.adt in p.adts and len(p.adts[t.adt]["vs"]) > 1:
                yield t.adt, b


def formulas(ck, p):
    hs = dict(hashers(p))
    ck.floor("feature hash functions", len(hs), 2)
    conv = [b for b in p.bodies.values() if b.kind in ("method", "fn") and not b.derived and b.lty(0).k == "adt" and b.lty(0).adt in hs and any(b.lty(i).strip().k == "adt" and b.lty(i).strip().adt in hs and b.lty(i).strip().adt != b.lty(0).adt for i in range(1, b.argc + 1))]
    ck.floor("conversions between features", len(conv), 1)
    F = {a: formula(p, b, a) for a, b in hs.items()}
    for c in conv:
        dst = c.lty(0).adt
        k = next(i for i in range(1, c.argc + 1) if c.lty(i).strip().k == "adt" and c.lty(i).strip().adt in hs and c.lty(i).strip().adt != dst)
        src = c.lty(k).strip().adt
        other = [c.lname(i) for i in range(1, c.argc + 1) if i != k]
        for v, e in tab.by_variant(p, c, k - 1, src, opaque=op(p)):
            ts = {t for _, t in tab.rets(e)}
            key = f"{src.split('::')[-1]}::{v['n']}"
            if not ck.ob(f"convert:{key}", len(ts) == 1 and list(ts)[0].op == "agg" and list(ts)[0].a[0] == dst, f"{c.path} does not turn {key} into one kind of feature", c.path):
                continue
            t = list(ts)[0]
            fld = {n: part(x) for n, x in zip(t.a[2], t.a[3])}
            a, b = F[src].get(v["n"]), F[dst].get(t.a[1])
            ok1 = a and len(a[0]) >= 1 and all(x is not None for x in a[0]) and len({sig(x) for x in a[0]}) == 1
            ck.ob(f"formula:{key}", ok1, f"the hash of {key} is not one of the known formulas: {[x and x[0] for x in a[0]] if a else None}", hs[src].path)
            ok2 = b and len(b[0]) >= 1 and all(x is not None for x in b[0]) and len({sig(x) for x in b[0]}) == 1
            ck.ob(f"formula:{dst.split('::')[-1]}::{t.a[1]}", ok2, f"the hash of {dst.split('::')[-1]}::{t.a[1]} is not one of the known formulas", hs[dst].path)
            if not (ok1 and ok2):
                continue
            x, y = a[0][0], b[0][0]
            ck.ob(f"same-kind:{key}", x[0] == y[0], f"{key} is hashed as {x[0]} by the parsers but as {y[0]} by {dst.split('::')[-1]}::{t.a[1]}", hs[dst].path)
            if x[0] != y[0]:
                continue
            # the parts of the target's formula, brought back through the conversion
            for i, (s, d) in enumerate(zip(x[2:], y[2:])):
                ps, pd = part(s), part(d)
                back = fld.get(pd[1]) if pd else None
                ck.ob(f"part:{key}:{i}", ps is not None and back is not None and back[1] == ps[1], f"{key}: the {ps and ps[1]} the parsers hash is not what {dst.split('::')[-1]} hashes ({pd and pd[1]}, filled from {back and back[1]})", c.path)
            # namespace: made from the text the conversion was given and the seed
            n = y[1]
            okn = n.op == "call" and nm(n).endswith("Namespace::from_name") and part(n.a[1][0]) is not None and fld.get(part(n.a[1][0])[1]) is not None and fld[part(n.a[1][0])[1]][1] in other
            ck.ob(f"namespace:{key}", okn, f"{dst.split('::')[-1]}::{t.a[1]} is not hashed with the namespace it was made for", hs[dst].path)
            ck.ob(f"namespace-param:{key}", x[1].op in ("par", "f"), f"{key} is not hashed with the namespace hash it is given", hs[src].path)


def sig(x):
    return (x[0], x[1].id) + tuple(part(y) if part(y) else y.id for y in x[2:])


# ------------------------------------------------------------------ interactions
def fnv(p):
    return 16777619


def inter(t):
    """[a, b, ..] when t is P*(P*a ^ b) ^ .. in 32-bit arithmetic"""
    t = peel(t)
    if t.op == "f" and t.a[1] == "0" and peel(t.a[0]).op == "agg":
        t = peel(peel(t.a[0]).a[3][0])
    if t.op == "bin" and t.a[0] == "BitXor":
        for l, r in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            m = times(l)
            if m is not None and times(r) is None:
                i = inter(m)
                return (i if i else [m]) + [r]
    return None


def times(t):
    """x when t is FNV_PRIME * x, wrapped to 32 bits"""
    t = peel(t)
    a = None
    if t.op == "call" and re.search(r"wrapping_mul$", nm(t)):
        a = t.a[1]
    elif t.op == "bin" and t.a[0] == "Mul":
        a = t.a[1:]
    if a:
        for x, y in (a, a[::-1]):
            if peel(x).op == "k" and peel(x).a[0] == fnv(None):
                return peel(y)
    return None


def deep(e, t, limit=4000):
    """subterms through phis"""
    seen, st = set(), [t]
    while st and len(seen) < limit:
        for s in subterms(st.pop()):
            if s in seen:
                continue
            seen.add(s)
            if s.op == "phi":
                st += list(e.phi_in.get(s, {}).values() if isinstance(e.phi_in.get(s), dict) else e.phi_in.get(s, ()))
    return seen


def masked(t):
    """the hash under a mask"""
    t = peel(t)
    if t.op == "bin" and t.a[0] == "BitAnd":
        for m, x in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if c11.mask_bits(m) is not None or peel(m).op == "f" and peel(m).a[1] == "0" and inter(m) is None and not any(s.op == "bin" for s in subterms(m)):
                return x
    return None


def interactions(ck, p):
    FI = c11.types(p)["FeatureIndex"]
    n = 0
    # walkers and iterators
    for b, e in c11.engines(p).values():
        done = set()
        for x in e.events:
            for a in list(x.args) + ([x.ret] if x.ret is not None else []):
                for s in subterms(a):
                    if s in done or s.op != "agg" or s.a[0] != FI:
                        continue
                    done.add(s)
                    h = masked(s.a[3][0])
                    if h is None or not any(y.op == "k" and y.a[0] == fnv(p) for y in subterms(h)):
                        if h is not None and any(y.op == "bin" and y.a[0] == "BitXor" for y in subterms(h)):
                            ck.bad(f"interaction:{c11.short(b)}", f"{b.path} combines feature indices in another way: {pp(h)[:200]}", q.loc(x))
                        continue
                    n += 1
                    ls = inter(h)
                    if not ck.ob(f"interaction:{c11.short(b)}:{len(ls or ())}", ls is not None and len(ls) in (2, 3) and all(not any(y.op == "bin" for y in subterms(peel(l))) for l in ls), f"{b.path} combines feature indices in another way than P*(P*a ^ b) ^ c: {pp(h)[:200]}", q.loc(x)):
                        continue
                    order(ck, p, b, e, x, s, ls)
    ck.floor("interaction indices computed", n, 5)
    defined(ck, p)
    # the inverse table's recurrence
    for adt, b in hashers(p):
        for v in p.adts[adt]["vs"]:
            if not any("Vec<" in p.adts[adt]["types"][f["t"]].s for f in v["f"]):
                continue
            for vv, e in tab.by_variant(p, b, 0, adt, opaque=lambda bb, f: op(p)(bb, f) or bb is not None and bb.id == b.id):
                if vv["n"] == v["n"]:
                    recurrence(ck, p, b, e, v["n"])


def defined(ck, p):
    """a configured interaction keeps its namespaces in their order, and the same name stands for the same namespace as in examples"""
    NS = next((a for a in p.adts if a.endswith("sparse_namespaced_features::Namespace")), None)
    for b in sorted(p.bodies.values(), key=lambda b: b.path):
        if b.crate not in p.crates or b.derived or b.kind not in ("fn", "method"):
            continue
        rt = b.lty(0).s
        if NS and f"({NS}, {NS}" in rt and b.argc and not (b.trait or "").endswith("Iterator"):
            e = Engine(p, b, opaque=op(p))
            learn_next(e)
            for x in e.events:
                for t in {s for a in x.args for s in subterms(a) if s.op == "tup" and len(s.a[0]) in (2, 3)}:
                    ps = [y for y in t.a[0]]
                    if all(y.op == "idx" and peel(y.a[1]).op == "k" for y in ps) and len({y.a[0] for y in ps}) == 1:
                        pos = [peel(y.a[1]).a[0] for y in ps]
                        ck.ob(f"defined:{c11.short(b)}:{len(ps)}", pos == list(range(len(ps))), f"{b.path}: the namespaces of an interaction are taken in the order {pos}", q.loc(x))
        if b.lty(0).k == "adt" and b.lty(0).adt == NS and b.argc and b.lty(1).strip().k == "adt" and b.lty(1).strip().adt != NS and b.lty(1).strip().adt in p.adts and len(p.adts[b.lty(1).strip().adt]["vs"]) > 1:
            for v, e in tab.by_variant(p, b, 0, b.lty(1).strip().adt, opaque=lambda bb, f: f["path"].endswith("Namespace::from_name")):
                ts = [t for _, t in tab.rets(e)]
                if v["f"]:
                    ok = all(t.op == "call" and nm(t).endswith("from_name") and part(t.a[1][0]) and part(t.a[1][0])[0] == v["n"] and peel(t.a[1][1]).op == "par" for t in ts)
                else:
                    ok = all(t.op == "agg" and t.a[1] == v["n"] and not t.a[3] or t.op == "call" and nm(t).endswith("from_name") and strip(t.a[1][0]).op == "k" and strip(t.a[1][0]).a[0] == " " for t in ts)
                ck.ob(f"named:{v['n']}", bool(ts) and ok, f"{b.path}: {v['n']} does not stand for the namespace examples give that name: {[pp(t)[:80] for t in ts]}", b.path)


def order(ck, p, b, e, x, s, ls):
    """the terms come from the namespaces in their order, and the value is the product of their values"""
    key = c11.short(b)
    # which namespace each term was read from: the tuple position of the interaction, or the element of a nested pair
    pos = [places(e, l) for l in ls]
    # an inner loop also depends on the outer loop's counter: only what a term adds to the earlier ones is its own
    seq, before = [], set()
    for x0 in pos:
        seq.append(x0 - before)
        before |= x0
    ok = all(len(x) == 1 for x in seq)
    seq = [list(x)[0] for x in seq] if ok else []
    ck.ob(f"order:{key}:{len(ls)}", ok and seq == sorted(seq) and len(set(seq)) == len(seq), f"{b.path}: the terms of an interaction are not combined in the order of its namespaces: {pos}", q.loc(x))
    # the value that belongs to this index
    vals = []
    for y in e.events:
        if y.kind == "ret":
            for t in tab.alts(e, y.args[0]):
                if t.op == "tup" and s in set(subterms(t)):
                    vals.append(t.a[0][1])
        if y.kind == "call" and y.xn is not x.xn and False:
            pass
    if not vals:
        vals = values_after(e, x)
    fs = None
    for v in vals:
        fs = factors(v)
        want = sorted(sorted(w) for w in pos)
        got = sorted(sorted(places(e, f)) for f in fs)
        ck.ob(f"value:{key}:{len(ls)}", want == got, f"{b.path}: the value of an interaction is not the product of its terms' values: {pp(v)[:200]}", q.loc(x))
    ck.ob(f"valued:{key}:{len(ls)}", bool(vals), f"{b.path}: the value of an interaction was not found", q.loc(x))


def values_after(e, x):
    """first argument of the callback run on what the accessor gave"""
    out = []
    for y in e.events:
        if y.kind == "call" and re.search(r"call_mut|call_once|Fn::call|::call$", y.name) and len(y.args) >= 1:
            ts = [t for a in y.args[1:] for t in ([a] if a.op != "tup" else list(a.a[0]))]
            if x.ret is not None and any(x.ret in set(subterms(t)) for t in ts):
                fl = [t for t in ts if x.ret not in set(subterms(t))]
                out += fl[:1]
    return out


def factors(v):
    v = peel(v)
    if v.op == "bin" and v.a[0] == "Mul":
        return factors(v.a[1]) + factors(v.a[2])
    return [v]


def places(e, t):
    """the namespaces of the interaction a part was read from, or its place in the nested pairs the iterators walk"""
    args = {path(peel(y.a[1][1])) for y in deep(e, t) if y.op == "call" and nm(y).endswith("get_namespace")}
    if args:
        return args
    # an entry is (index, value), and an index is itself a wrapped number
    return {entry(peel(t))}


def entry(t):
    if t.op == "f" and t.a[1] == "1":
        return path(t.a[0])
    if t.op == "f" and t.a[1] == "0" and t.a[0].op == "f" and t.a[0].a[1] == "0":
        return path(t.a[0].a[0])
    return path(t)


def path(t):
    out = []
    t = peel(t)
    while t.op == "f":
        out.append(t.a[1])
        t = t.a[0]
    if t.op == "par":
        out.append(str(t.a[0]))
    return ".".join(reversed(out))


def recurrence(ck, p, b, e, vn):
    key = vn
    fin = []
    for r, t in tab.rets(e):
        t = peel(t)
        for y in ([t] if t.op != "agg" else list(t.a[3])):
            fin += tab.alts(e, y) if y.op == "phi" else [y]
    fin = [peel(x) for x in fin]
    ok = len(fin) == 1 and fin[0].op == "bin" and fin[0].a[0] == "BitXor"
    if not ck.ob(f"recurrence:{key}", ok, f"{b.path}: the hash of an interaction is not P*(P*a ^ b) ^ c: {[pp(x)[:120] for x in fin]}", b.path):
        return
    acc = [x for x in fin[0].a[1:] if peel(x).op == "phi"]
    last = [x for x in fin[0].a[1:] if peel(x).op != "phi"]
    if not ck.ob(f"recurrence-shape:{key}", len(acc) == 1 and len(last) == 1, f"{b.path}: the hash of an interaction is not built up term by term", b.path):
        return
    ph = peel(acc[0])
    ins = tab.alts(e, ph)
    init, step = [], []
    for x in ins:
        m = times(x)
        if m is None:
            ck.bad(f"recurrence-step:{key}", f"{b.path}: {pp(x)[:160]} is not a multiple of the FNV prime", b.path)
            return
        if m.op == "bin" and m.a[0] == "BitXor":
            step.append(m)
        else:
            init.append(m)
    ck.ob(f"recurrence-init:{key}", len(init) == 1 and where(init[0]) == "first", f"{b.path}: the first term of an interaction is not the one multiplied first: {[pp(x)[:160] for x in init]}", b.path)
    ck.ob(f"recurrence-step:{key}", len(step) == 1 and any(peel(y) is ph or peel(y).op == "phi" for y in step[0].a[1:]) and any(where(y) == "middle" for y in step[0].a[1:]), f"{b.path}: the middle terms of an interaction are not combined as acc = P*(acc ^ term): {[pp(x)[:200] for x in step]}", b.path)
    if len(step) == 1:
        ck.ob(f"recurrence-middle:{key}", between(e, step[0]), f"{b.path}: the terms between the first and the last one are not each combined once: {pp(step[0])[:240]}", b.path)
    ck.ob(f"recurrence-last:{key}", where(last[0]) == "last", f"{b.path}: the last term of an interaction is not combined last: {pp(last[0])[:160]}", b.path)


def between(e, t):
    """the middle terms are the second to the last but one: a range 1..len-1, or skip(1) and take(len-2)"""
    d = deep(e, t)
    lens = lambda x, k: (lambda y: y.op == "bin" and y.a[0] == "Sub" and peel(y.a[2]).op == "k" and peel(y.a[2]).a[0] == k)(peel(x))
    k1 = lambda x: peel(x).op == "k" and peel(x).a[0] == 1
    for s in d:
        if s.op == "agg" and re.search(r"::Range(Inclusive)?$", s.a[0]) and len(s.a[3]) >= 2:
            if k1(s.a[3][0]) and lens(s.a[3][1], 2 if s.a[0].endswith("Inclusive") else 1):
                return True
    names = [(nm(s).split("::")[-1], s.a[1]) for s in d if s.op == "call"]
    skip1 = any(n == "skip" and k1(a[1]) for n, a in names) or any(n == "split_first" for n, _ in names) or any(s.op == "agg" and s.a[0].endswith("::RangeFrom") and k1(s.a[3][0]) for s in d)
    less = any(n == "take" for n, a in names) or any(n in ("split_last", "next_back") for n, _ in names) or any(s.op == "agg" and s.a[0].endswith("::RangeTo") for s in d)
    if skip1 and less:
        return True
    # a counter that starts at 1 and stops before the last
    for s in d:
        if s.op == "phi":
            ins = [peel(x) for x in flat(e, s)]
            if any(k1(x) for x in ins) and any(c[0].op == "bin" and c[0].a[0] in ("Lt", "Ne", "Ge", "Eq") and any(lens(y, 1) for y in c[0].a[1:]) for n in e.nodes for _, c in n.succ if c is not None and hasattr(c[0], "op")):
                return True
    return False


def where(t):
    """which terms of the list a hash was computed from"""
    for s in subterms(t):
        if s.op == "call":
            if re.search(r"::(first|split_first)$", nm(s)):
                return "first"
            if re.search(r"::(last|split_last)$", nm(s)):
                return "last"
            if re.search(r"next$", nm(s)) or s.op == "next":
                return "middle"
        if s.op == "idx" and s.a[1].op == "k" and s.a[1].a[0] == 0:
            return "first"
    return None


# ------------------------------------------------------------------ parsers
ADD = re.compile(r"SparseFeaturesNamespace(::<.*>)?::add_feature(s\w*)?$")
GET = re.compile(r"get_or_create_namespace(_with_capacity)?$")
NUM = re.compile(r"(as_f64|as_i64|as_u64)$")


class Trial:
    """obligations of one addition, kept back until it is clear whose they are"""

    def __init__(self):
        self.obls = []

    def ob(self, key, ok, msg="", where=""):
        self.obls.append((key, bool(ok), msg, where))
        return bool(ok)


def parsers(ck, p):
    n = 0
    E = c11.engines(p)
    for b, e in E.values():
        if "parser" not in b.path and b.crate == "reductionml_core":
            continue
        for x in e.events:
            if x.kind != "call" or not ADD.search(x.path or ""):
                continue
            if x.ctx.body is not b and x.ctx.body.root != b.id and any(v[0] is x.ctx.body for v in E.values()):
                continue
            n += 1
            t = Trial()
            addition(t, p, b, e, x, f"{c11.short(b)}:{n}")
            if not all(o[1] for o in t.obls):
                # a helper that is told the name and the value: what it is told is decided where it is called
                outer = Trial()
                m = 0
                h = x.ctx.body
                for c in flow.callers(p, h) if h.kind != "closure" else ():
                    if c.id != h.id:
                        ce = Engine(p, p.bodies.get(c.root, c) if c.kind == "closure" else c, opaque=lambda bb, f: op(p)(bb, f) and (bb is None or bb.id != h.id))
                        for y in ce.events:
                            if y.kind == "call" and ADD.search(y.path or "") and y.ctx.body is x.ctx.body and y.span == x.span:
                                m += 1
                                addition(outer, p, c, ce, y, f"{c11.short(c)}:{n}.{m}")
                if m and all(o[1] for o in outer.obls):
                    t = outer
            for o in t.obls:
                ck.ob(*o)
    ck.floor("additions of features by parsers", n, 5)


def addition(ck, p, b, e, x, key):
    FI = c11.types(p)["FeatureIndex"]
    idx, val = x.args[1], x.args[2] if len(x.args) > 2 else None
    items = []
    if idx.op == "agg" and idx.a[0] == FI:
        for h in tab.alts(e, masked(idx.a[3][0]) or idx):
            items.append((e, h, val, {}))
    else:
        c = [s for s in subterms(idx) if s.op == "clo"]
        for s in c:
            cb = p.bodies.get(s.a[0])
            ce = Engine(p, cb, opaque=op(p)) if cb is not None else None
            for r, t in (tab.rets(ce) if ce else ()):
                if t.op == "agg" and t.a[0] == FI:
                    m = {}
                    for i, cap in enumerate(s.a[1]):
                        m[str(i)] = cap
                    items.append((ce, capture(masked(t.a[3][0]) or t, m), val, m))
        if not ck.ob(f"added:{key}", items, f"{b.path} adds features whose indices could not be followed: {pp(idx)[:200]}", q.loc(x)):
            return
    for i, (ee, h, v, m) in enumerate(items):
        k = kind(ee, h)
        if not ck.ob(f"kind:{key}:{i}", k is not None, f"{b.path} adds a feature whose index is not the hash of a name, a name and a text, or an offset: {pp(h)[:240]}", q.loc(x)):
            continue
        ck.ob(f"own-namespace:{key}:{i}", own(e, x, k[1]), f"{b.path} hashes a feature with another namespace than the one it is added to: {pp(k[1])[:160]}", q.loc(x))
        if b.path.find("json") >= 0 or any(s.op == "vf" and s.a[1] in ("Number", "Str") for s in subterms(h)):
            json_parts(ck, p, b, e, x, k, v, f"{key}:{i}", m)


def capture(t, m):
    """captured values put into a closure's result"""
    memo = {}

    def go(t):
        if t in memo:
            return memo[t]
        r = t
        if t.op == "f" and t.a[1] in m and t.a[0].op == "par" and str(t.a[0].a[0]) in ("p1", "self"):
            r = m[t.a[1]]
        elif t.op in ("bin",):
            r = mk("bin", t.a[0], go(t.a[1]), go(t.a[2]))
        elif t.op == "cast":
            r = mk("cast", t.a[0], go(t.a[1]))
        elif t.op == "f":
            b = go(t.a[0])
            r = t if b is t.a[0] else mk("f", b, t.a[1])
        elif t.op == "call" and isinstance(t.a[1], tuple):
            r = mk("call", t.a[0], tuple(go(x) for x in t.a[1]), *t.a[2:])
        memo[t] = r
        return r
    return go(t)


def own(e, x, ns):
    """ns is the namespace of the list x adds to"""
    dest = x.args[0]
    d = deep(e, dest, 400) if dest.op == "phi" else set(subterms(dest))
    ns = peel(ns)
    # the namespace stored in the list itself
    if ns.op == "f" and ns.a[1] == "namespace":
        return True
    gets = [y for y in d if y.op == "call" and GET.search(nm(y))]
    if any(peel(y.a[1][1]) is ns for y in gets):
        return True
    s = {z for z in subterms(ns)}
    return any(GET.search(nm(y)) for y in s if y.op == "call") and any(y in s for y in gets) or bool(gets) and all(same_ns(e, peel(y.a[1][1]), ns) for y in gets)


def same_ns(e, a, b):
    a, b = {x for x in tab.alts(e, a)}, {x for x in tab.alts(e, b)}
    return bool(a) and a == b


def json_parts(ck, p, b, e, x, k, val, key, m):
    loc = q.loc(x)
    v = peel(val)
    vs = [y for y in subterms(v)]
    num = [y for y in vs if y.op == "call" and NUM.search(nm(y))]
    if k[0] == "anon":
        # position and element of the same array
        ck.ob(f"anon:{key}", len(k) > 2, "", loc)
        if num:
            it = [y for y in vs if is_next(y)]
            ck.ob(f"anon-value:{key}", bool(it), f"{b.path}: the value of an unnamed feature is not an element of the array: {pp(v)[:160]}", loc)
        if m is None or not m:
            ok = any(s.op == "phi" for s in subterms(k[2])) or any(is_next(s) for s in subterms(k[2]))
            ck.ob(f"anon-offset:{key}", ok and not any(s.op == "bin" for s in subterms(k[2])), f"{b.path}: the offset of an unnamed feature is not its position: {pp(k[2])[:160]}", loc)
        else:
            ok = k[2].op == "par"
            ck.ob(f"anon-offset:{key}", ok, f"{b.path}: the offset of an unnamed feature is not its position: {pp(k[2])[:160]}", loc)
            rng = [s for s in subterms(x.args[1]) if s.op == "agg" and s.a[0].endswith("::Range")]
            ck.ob(f"anon-range:{key}", len(rng) == 1 and peel(rng[0].a[3][0]).op == "k" and peel(rng[0].a[3][0]).a[0] == 0, f"{b.path}: positions do not start at 0", loc)
        return
    name = k[2]
    if k[0] == "str":
        ck.ob(f"str-one:{key}", is_one(v), f"{b.path}: a text-valued feature does not count as 1 but {pp(v)[:80]}", loc)
        t = strip(k[3])
        src = t.a[0] if t.op == "vf" and t.a[1] == "Str" else None
        ck.ob(f"str-text:{key}", src is not None and key_of(name, src), f"{b.path}: a text-valued feature is not hashed from its key and then its text: {pp(name)[:100]}, {pp(t)[:100]}", loc)
        return
    if num:
        src = strip(num[0].a[1][0])
        src = src.a[0] if src.op == "vf" and src.a[1] == "Number" else src
        ck.ob(f"num-key:{key}", key_of(name, src), f"{b.path}: a number's feature is not named by its key: {pp(name)[:120]} for {pp(src)[:120]}", loc)
        w = v
        while w.op == "cast":
            w = w.a[1]
        ck.ob(f"num-value:{key}", not any(y.op == "bin" for y in vs) and nm(num[0]).endswith("as_f64"), f"{b.path}: a number's feature does not have that number as its value: {pp(v)[:120]}", loc)
        return
    ck.ob(f"one:{key}", is_one(v), f"{b.path}: a feature without a number does not count as 1 but {pp(v)[:80]}", loc)
    t = strip(name)
    txt = t.op == "vf" and t.a[1] == "Some" and t.a[0].op == "call" and nm(t.a[0]).endswith("as_str") or t.op == "vf" and t.a[1] in ("Str", "Ok") and any(y.op == "call" and nm(y).endswith("as_str") for y in subterms(t))
    if txt:
        return
    # otherwise only `true` adds it
    tr = [c for c in dominators(e, x) if truth(c, name)]
    ck.ob(f"true:{key}", bool(tr), f"{b.path}: a feature named by a key is added without a number, a text or `true`: {pp(name)[:120]}", loc)


def dominators(e, x):
    d = c19.doms(e)
    return d.get(x.xn, ()) if isinstance(d, dict) else ()


def truth(c, name):
    t, v = c if isinstance(c, tuple) and len(c) == 2 else (None, None)
    if t is None or not hasattr(t, "op"):
        return False
    t = peel(t)
    return t.op == "vf" and t.a[1] == "Bool" and (v is True or v == 1 or isinstance(v, tuple) and v[0] == "ne" and 0 in (v[1] if isinstance(v[1], (tuple, list, set, frozenset)) else (v[1],))) and key_of(name, t.a[0])


def is_one(v):
    v = peel(v)
    return v.op == "k" and v.a[0] in (("f", "1.0"), 1.0, "1.0")


def is_next(y):
    return y.op == "next" or y.op == "call" and re.search(r"next$", nm(y)) is not None or y.op == "vf" and y.a[1] == "Some" and pp(y.a[0]).startswith("next(")


def key_of(name, val):
    """name is the key that belongs to the value: both parts of one pair, or the two parameters of one function"""
    name, val = strip(name), strip(val)
    if name.op == "par" and val.op == "par":
        return name is not val
    if name.op == "f" and val.op == "f" and name.a[0] is val.a[0]:
        return (name.a[1], val.a[1]) == ("0", "1")
    if name.op == "k" and isinstance(name.a[0], str):
        return False
    return False


# ------------------------------------------------------------------ the text format
def vw(ck, p):
    pf = next((a for a, b in hashers(p) if a.endswith("ParsedFeature")), None)
    fs = [b for b in p.bodies.values() if b.kind in ("fn", "method") and b.crate in p.crates and b.lty(0).k == "tuple" and "ParsedFeature" in b.lty(0).s and "f32" in b.lty(0).s] if pf else []
    ck.floor("functions reading one text feature", len(fs), 1)
    for b in fs:
        e = Engine(p, b, opaque=op(p))
        learn_next(e)
        # the pairs as built, before they are joined
        pairs = [(a, v) for a, v in built(e, pf)]
        ck.floor(f"kinds of text features", len(pairs), 4)
        for i, (a, v) in enumerate(sorted(pairs, key=lambda z: z[0].id)):
            d = dict(zip(a.a[2], a.a[3]))
            num = parsed(v)
            where = f"{b.path}"
            if a.a[1] == "Anonymous" or set(d) == {"offset"}:
                ck.ob(f"text-anon:{i}", num is not None and token(num) == "rest", f"{b.path}: an unnamed feature does not have the number after the colon as its value: {pp(v)[:120]}", where)
                o = peel(d["offset"])
                ck.ob(f"text-offset:{i}", o.op in ("old", "par") and count(e), f"{b.path}: unnamed features are not numbered 0, 1, 2..: {pp(o)[:80]}", where)
            elif "value" in d:
                ck.ob(f"text-str-one:{i}", is_one(v), f"{b.path}: a text-valued feature does not count as 1: {pp(v)[:120]}", where)
                tn, tv = token(d["name"]), token(d["value"])
                ok = (tn, tv) == ("first", "second") or strip(d["name"]).op == "k" and strip(d["name"]).a[0] == "" and tv == "rest"
                ck.ob(f"text-str:{i}", ok, f"{b.path}: a text-valued feature is not made of the texts before and after the colon: {pp(d['name'])[:100]}, {pp(d['value'])[:100]}", where)
            else:
                ck.ob(f"text-name:{i}", token(d["name"]) in ("first", "whole"), f"{b.path}: a named feature is not named by the text before the colon: {pp(d['name'])[:120]}", where)
                ck.ob(f"text-value:{i}", is_one(v) or num is not None and token(num) == "second", f"{b.path}: a named feature does not have the number after its colon as value: {pp(v)[:120]}", where)
        users(ck, p, b)


def built(e, pf):
    out = {}
    for x in e.events:
        if x.kind == "ret":
            stack = [x.args[0]]
            seen = set()
            while stack:
                t = stack.pop()
                if t in seen:
                    continue
                seen.add(t)
                if t.op == "phi":
                    stack += tab.alts(e, t)
                elif t.op == "tup" and len(t.a[0]) == 2:
                    for a in tab.alts(e, t.a[0][0]):
                        for v in tab.alts(e, t.a[0][1]):
                            if a.op == "agg" and a.a[0] == pf:
                                out[(a, v)] = 1
    # a part that was joined is looked up in the pieces that were joined
    res = []
    for a, v in out:
        for a2 in joined(e, a):
            res.append((a2, v))
    return list(dict.fromkeys(res))


def joined(e, a):
    """an aggregate whose parts come from a join, part by part (parts of one arm stay together)"""
    vs = [tab.alts(e, x) for x in a.a[3]]
    k = max((len(v) for v in vs), default=1)
    if k <= 1:
        return [a]
    out = []
    for i in range(k):
        out.append(mk("agg", a.a[0], a.a[1], a.a[2], tuple(v[i] if len(v) == k else v[0] for v in vs)))
    return out


def parsed(v):
    v = peel(v)
    for s in subterms(v):
        if s.op == "call" and re.search(r"parse(::<.*>)?$", nm(s)):
            return s.a[1][0]
    return None


def token(t):
    """which piece of the text a term is: first/second piece of the split at ':', the rest after the first character, the whole"""
    t = strip(t)
    ns = [s for s in subterms(t) if s.op == "call" and nm(s).endswith("next")]
    if ns:
        return nth(ns[0])
    for s in subterms(t):
        if s.op == "agg" and s.a[0].endswith("RangeFrom") and peel(s.a[3][0]).op == "k" and peel(s.a[3][0]).a[0] == 1:
            return "rest"
        if s.op == "call" and nm(s).endswith("strip_prefix"):
            return "rest"
        if s.op == "vf" and s.a[1] == "Some" and s.a[0].op == "call" and re.search(r"split_once$", nm(s.a[0])):
            return None
    if t.op == "f" and t.a[1] in ("0", "1") and t.a[0].op == "vf" and t.a[0].a[0].op == "call" and nm(t.a[0].a[0]).endswith("split_once"):
        return "first" if t.a[1] == "0" else "second"
    if t.op == "par":
        return "whole"
    return None


def nth(call):
    """calls of `next` on one splitter are told apart by their place: the earlier is the first piece"""
    key = call.a[2:] if len(call.a) > 2 else ()
    sib = _next.get(call.a[1])
    return None if sib is None else ("first", "second", "third", "fourth")[min(sib.index(call), 3)] if call in sib else None


_next = {}


def learn_next(e):
    """order of the calls of `next` on each splitter, when one always comes before the other"""
    _next.clear()
    evs = [x for x in e.events if x.kind == "call" and x.name.endswith("next") and x.ret is not None]
    by = {}
    for x in evs:
        by.setdefault(x.ret.a[1] if x.ret.op == "call" else (x.args[0],), []).append(x)
    for k, xs in by.items():
        order = []
        for x in xs:
            later, _ = q.walk(e, x)
            order.append((sum(1 for y in xs if y in later), x))
        order.sort(key=lambda z: -z[0])
        _next[k] = [x.ret for _, x in order]


def count(e):
    """the counter is raised by one where it is used, and only there"""
    ws = [x for x in e.events if x.kind == "write"]
    return len(ws) == 1 and peel(ws[0].args[1]).op == "bin" and peel(ws[0].args[1]).a[0] == "Add" and any(peel(y).op == "k" and peel(y).a[0] == 1 for y in peel(ws[0].args[1]).a[1:])


def users(ck, p, pf):
    """every user of the feature reader gives it a counter that starts at 0 and uses the value it gives"""
    n = 0
    for c in flow.callers(p, pf):
        root = p.bodies.get(c.root, c) if c.kind == "closure" else c
        e = Engine(p, root, opaque=lambda b, f: op(p)(b, f) or f["path"] == pf.path)
        for x in e.events:
            if x.kind == "call" and x.path == pf.path:
                n += 1
                z = [peel(y) for y in flat(e, x.args[1])]
                ok = all(y.op == "k" and y.a[0] == 0 or y.op in ("post", "wupd", "phi", "upd") or any(s is x.ret for s in subterms(y)) for y in z)
                ck.ob(f"counter:{c11.short(root)}", ok, f"{root.path}: unnamed features are not numbered from 0: {[pp(y)[:60] for y in z]}", q.loc(x))
            if x.kind == "call" and ADD.search(x.path or "") and len(x.args) > 2:
                fs = factors(x.args[2])
                for f in fs:
                    seen, todo = set(), [f]
                    while todo:
                        for ph in subterms(todo.pop()):
                            if ph.op == "phi" and ph not in seen:
                                seen.add(ph)
                                todo += [v for _, v in q.phi_ins(e, ph) if isinstance(v, Term)]
                                why = [c for c in q.deciders(e, ph) if len({v for _, v in q.phi_ins(e, ph)}) > 1 and any(s.op == "f" and s.a[1] == "1" and s.a[0].op == "call" and pf.path.endswith(nm(s.a[0]).split("::")[-1]) for s in map(peel, subterms(c)))]
                                ck.ob(f"text-scale-free:{c11.short(root)}", not why, f"{root.path}: by how much the value of a text feature is scaled depends on that value: {[pp(c)[:80] for c in why]}", q.loc(x))
                fv = [f for f in fs if peel(f).op == "f" and peel(f).a[1] == "1" and peel(f).a[0].op == "call" and pf.path.endswith(nm(peel(f).a[0]).split("::")[-1])]
                ck.ob(f"text-scaled:{c11.short(root)}", len(fv) == 1 and len(fs) == 2 and not any(peel(f).op == "k" for f in fs), f"{root.path}: the value of a text feature is not its own value times its namespace's: {pp(x.args[2])[:160]}", q.loc(x))
    ck.floor("users of the text feature reader", n, 2)


# ------------------------------------------------------------------ namespaces, labels
def namespaces(ck, p):
    fn = [b for b in p.bodies.values() if b.kind == "method" and b.path.endswith("Namespace::from_name")]
    hn = [b for b in p.bodies.values() if b.kind == "method" and b.path.endswith("sparse_namespaced_features::Namespace::hash")]
    ck.anchor("Namespace::from_name", fn)
    ck.anchor("Namespace::hash", hn)
    for b in fn:
        e = Engine(p, b, opaque=lambda b, f: f["path"].endswith("hash_bytes"))
        got = {}
        for r, t in tab.rets(e):
            if t.op == "agg":
                got.setdefault(t.a[1], []).append(t)
        named = [t for v, ts in got.items() for t in ts if t.a[3]]
        plain = [v for v, ts in got.items() if not ts[0].a[3]]
        ok = len(named) == 1
        if ok:
            h = peel(named[0].a[3][0])
            ok = h.op == "call" and nm(h).endswith("hash_bytes") and strip(h.a[1][0]).op == "par" and strip(h.a[1][0]).a[0] == b.lname(1) and peel(h.a[1][1]).op == "par" and peel(h.a[1][1]).a[0] == b.lname(2)
        ck.ob("namespace:named", ok, "a named namespace is not the hash of its name with the seed", b.path)
        ck.ob("namespace:default", plain == ["Default"], "no name stands for the default namespace", b.path)
        names = {s for s in tab.strings(e)}
        ck.ob("namespace:default-names", " " in names, f"the namespace without a name (' ') is not the default one: {sorted(names)}", b.path)
    for b in hn:
        adt = b.lty(1).strip().adt
        for v, e in tab.by_variant(p, b, 0, adt):
            for r, t in tab.rets(e):
                t = peel(t)
                ok = t.op == "vf" and t.a[1] == v["n"] or t.op == "f" and t.a[1] == "0" or t.op == "k" and t.a[0] == 0 and not v["f"]
                ok = ok and (not v["f"] or any(s.op in ("par", "vf") for s in subterms(t)))
                ck.ob(f"namespace-hash:{v['n']}", ok, f"the hash of a {v['n']} namespace is {pp(t)[:100]}", b.path)


def labels(ck, p):
    adts = {a.split("::")[-1]: a for a in p.adts if a.endswith(("types::CBLabel", "types::SimpleLabel"))}
    ck.anchor("label types", len(adts) == 2)
    n = 0
    for b in sorted(p.bodies.values(), key=lambda b: b.path):
        if b.crate != "reductionml_core" or b.derived or b.kind not in ("fn", "method") or "parser" not in b.path or b.trait and b.trait.startswith("core::"):
            continue
        if not any(x in b.lty(0).s for x in ("Label",)):
            continue
        e = Engine(p, b, opaque=lambda bb, f: op(p, r"parse_features$|to_features$|handle_features$")(bb, f) and not re.search(r"SimpleLabel|CBLabel", f["path"]))
        learn_next(e)
        done = set()
        for x in e.events:
            for s in {s for a in x.args for s in subterms(a)} - done:
                done.add(s)
                for key, f, t in parts_of(e, s, adts):
                    for y in tab.alts(e, t):
                        src = source(y)
                        if src is not None:
                            n += 1
                            ck.ob(f"label:{c11.short(b)}:{key}.{f}", agrees(f, src), f"{b.path}: the label's {f} is filled from the {src[1]} {src[0]}", q.loc(x))
    ck.floor("label parts filled by parsers", n, 5)


def parts_of(e, s, adts):
    """(label, part, term) of the labels built in a term: the fields of a label, and the numbered parts of what a text label is
    kept in until the example is complete"""
    if s.op != "agg":
        return
    if s.a[0] in adts.values():
        for f, t in zip(s.a[2], s.a[3]):
            yield s.a[0].split("::")[-1], f, t
    elif "Label" in s.a[0] and "parsers" in s.a[0]:
        for f, t in zip(s.a[2], s.a[3]):
            for t in tab.alts(e, t):
                w = t.a[3][0] if t.op == "agg" and t.a[1] == "Some" else t
                if w.op == "tup":
                    for i, u in enumerate(w.a[0]):
                        yield f"{s.a[0].split('::')[-1]}.{f}", str(i), u
                elif str(f).isdigit() and len(s.a[2]) > 1:
                    yield f"{s.a[0].split('::')[-1]}.{s.a[1]}", str(f), w


ORD = ("first", "second", "third", "fourth")


def source(t):
    """('key', name) or ('token', position) a label part is read from"""
    u = t
    while u.op == "cast" or u.op == "call" and len(u.a[1]) >= 1 and re.search(r"(unwrap_or\w*|unwrap|expect)$", nm(u)):
        u = u.a[1][0] if u.op == "call" else u.a[1]
    u = peel(u)
    # a part of a text label that was put together before
    if u.op == "f" and str(u.a[1]).isdigit() and u.a[0].op == "vf" and u.a[0].a[1] == "Some" and u.a[0].a[0].op in ("f", "vf"):
        return ("token", ORD[min(int(u.a[1]), 3)])
    if u.op == "vf" and u.a[1] == "Some" and u.a[0].op == "vf" and str(u.a[0].a[2]).isdigit():
        u = u.a[0]
    if u.op == "vf" and u.a[1] not in ("Some", "Ok", "Err") and str(u.a[2]).isdigit():
        return ("token", ORD[min(int(u.a[2]), 3)]) if u.a[0].op != "call" or not nm(u.a[0]).endswith("Value::get") else None
    for s in subterms(t):
        if s.op == "call" and re.search(r"Value(::<.*>)?::get$", nm(s)):
            k = [y for y in s.a[1] if peel(y).op == "k" and isinstance(peel(y).a[0], str)]
            if k and not any(z.op == "call" and re.search(r"Value(::<.*>)?::get$", nm(z)) and z is not s and s in set(subterms(z)) for z in subterms(t)):
                return ("key", peel(k[0]).a[0])
        if s.op == "call" and nm(s).endswith("next") and any(y.op == "call" and re.search(r"str::r?splitn?(_\w+)?(::<.*>)?$", nm(y)) for y in subterms(s)) and nth(s):
            return ("token", nth(s))
        if s.op == "idx" and s.a[1].op == "k" and isinstance(s.a[1].a[0], int):
            return ("token", ORD[min(s.a[1].a[0], 3)])
    return None


def agrees(f, src):
    k, v = src
    f = f.lower()
    if k == "key":
        v = v.lower().replace("_", "")
        if v == "label":
            return f in ("value", "label", "0")
        # positions of actions are 0-based in labels; the formats call the 0-based one an index
        return v.endswith("index") if f == "action" else f in v
    if f.isdigit():
        return ORD[min(int(f), 3)] == v
    return {"action": "first", "cost": "second", "probability": "third", "value": "first", "weight": "second"}.get(f, v) == v
