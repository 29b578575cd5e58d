"""A feature index is a value of one type, and that type can only be made in a few ways.  Every place of the workspace that makes
one is found and its content classified: the result of masking with (1 << bits) - 1 (in any of its spellings), the middle of a
table of 2^bits cells, the size of such a table (which may only be used as a size), zero, or a loop counter below a table's size.
Anything else is unmasked.  The number of bits of every mask, size and middle is then traced back - through parameters to every
caller, through fields to every construction, through captures - until it reaches the configured number of bits (or the argument
of that name of a function exported to Python); likewise the seed of every hash, down to the configured seed.  A constant, another
setting or an untraceable value on the way is reported with the place it comes from."""
import re
import q
from engine import Engine, pp, subterms, children
from flow import Flow, peel, flat, typeof

SCALAR = re.compile(r"(FeatureIndex|FeatureMask|FeatureHash|NamespaceHash|ModelIndex|StateIndex|GlobalConfig|\bu32|\bu64|\bu8|\busize)(>|, .*>)?$")
KEEP = re.compile(r"hash::hash_bytes$|Namespace::hash$|Namespace::from_name$")


def opaque(p):
    def f(b, c):
        if KEEP.search(c["path"]) or c["path"].endswith("hash64_with_seed"):
            return True
        if b is None or b.crate not in p.crates or b.kind == "closure" or b.derived:
            return False
        if b.trait and b.trait.startswith("core::"):
            return False
        return not SCALAR.search(b.lty(0).s)
    return f


def types(p):
    return {n: next((a for a in p.adts if a.endswith("types::" + n)), None) for n in ("FeatureIndex", "FeatureMask", "FeatureHash", "NamespaceHash")}


def bodies(p):
    for b in sorted(p.bodies.values(), key=lambda b: b.path):
        if b.crate in p.crates and not b.derived and b.kind in ("fn", "method", "closure"):
            yield b


_eng = {}


def engines(p):
    """every function that handles feature indices, hashes or numbers of bits, other workspace functions not entered"""
    k = id(p)
    if k not in _eng:
        op = opaque(p)
        out = {}
        for b in bodies(p):
            if any(q_mentions(b)):
                out[b.id] = (b, Engine(p, b, opaque=op))
        _eng[k] = out
    return _eng[k]


TYPES = re.compile(r"(FeatureIndex|FeatureMask|FeatureHash|NamespaceHash|types::Namespace\b|sparse_namespaced_features::Namespace\b|GlobalConfig)")


def q_mentions(b):
    return (TYPES.search(b.lty(i).s) for i in range(len(b.locals)))


def run(ck):
    p = ck.prog()
    T = types(p)
    for n, a in T.items():
        ck.anchor(n, a)
    FI, FM = T["FeatureIndex"], T["FeatureMask"]
    E = engines(p)
    ck.count("functions handling feature indices", len(E))
    bits, seeds = [], []
    n = 0
    for b, e in E.values():
        seen = set()
        for x in e.events:
            for a in list(x.args) + ([x.ret] if x.ret is not None else []):
                for s in subterms(a):
                    if s.op != "agg" or s in seen:
                        continue
                    seen.add(s)
                    if s.a[0] == FI:
                        n += 1
                        how, bt = content(s.a[3][0], p, b)
                        ck.ob(f"index:{short(b)}:{n}", how is not None, f"{b.path} makes a feature index that is not reduced to the configured number of bits: {pp(s.a[3][0])[:200]}", q.loc(x))
                        if bt is not None:
                            bits.append((b, e, bt, q.loc(x)))
                    elif s.a[0] == FM:
                        bt = mask_bits(s.a[3][0])
                        pr = peel(s.a[3][0])
                        if pr.op == "par" or bt is None and pr.op == "f":
                            continue
                        n += 1
                        ck.ob(f"mask:{short(b)}:{n}", bt is not None, f"{b.path} makes a mask that is not 2^bits - 1: {pp(s.a[3][0])[:200]}", q.loc(x))
                        if bt is not None and bt != "mask":
                            bits.append((b, e, bt, q.loc(x)))
            # sizes are not indices
            if x.kind == "call" and x.path and (re.search(r"SparseFeatures(Namespace)?(::<.*>)?::\w+$", x.path) or re.search(r"::(weight|state)_at(_mut)?$", x.path)):
                for a in x.args[1:]:
                    for y in flat(e, a):
                        if y.op == "agg" and y.a[0] == FI:
                            how, _ = content(y.a[3][0], p, b)
                            ck.ob(f"use:{short(b)}:{x.path.split('::')[-1]}", how != "size", f"{b.path} uses the size of the table as a feature index", q.loc(x))
            if x.kind == "call" and x.path and x.path.endswith("hash::hash_bytes"):
                seeds.append((b, e, x.args[1], q.loc(x)))
            if x.kind == "call" and x.path and x.path.endswith("Namespace::from_name"):
                seeds.append((b, e, x.args[1], q.loc(x)))
    ck.floor("feature indices and masks made", n, 12)
    trace(ck, p, "bits", "num_bits", bits, "number of bits")
    trace(ck, p, "seed", "hash_seed", seeds, "hash seed")


def short(b):
    return re.sub(r"<.*? as .*?>::|.*::(?=[\w{}#]+::[\w{}#]+$)", "", b.path)


def trace(ck, p, key, field, starts, what):
    gc = next((a for a in p.adts if a.endswith("global_config::GlobalConfig")), None)
    ck.anchor("GlobalConfig", gc)

    def accept(fl, b, e, t):
        if t.op == "f":
            o = typeof(p, b, t.a[0])
            if o is not None and o.isadt(gc):
                return True if t.a[1] == field else f"the configuration's {t.a[1]} is used as the {what}"
            if o is not None and t.a[1] == "0" and o.k == "adt" and len(p.adts[o.adt]["vs"][0]["f"]) == 1 and o.s.split("::")[-1] in ("FeatureMask", "NamespaceHash", "FeatureHash"):
                return [t.a[0]] if o.s.endswith("FeatureMask") else True
        if t.op == "k":
            return f"the {what} is the constant {t.a[0]}"
        if field == "hash_seed":
            if t.op == "call" and re.search(r"hash_bytes$|hash64_with_seed$", str(t.a[0])):
                return True
            if t.op == "f" and t.a[0].op == "call" and str(t.a[0].a[0]).endswith("Namespace::hash"):
                return True
            if t.op == "call" and str(t.a[0]).endswith("Namespace::hash"):
                return True
        else:
            m = mask_bits(t)
            if m is not None and m != "mask" and t.op != "par":
                return [m]
        return None

    def open_param(b, i):
        return b.lname(i).lstrip("_") == field or not re.search(r"^u(8|16|32|64|size)$", b.lty(i).s)

    fl = Flow(p, accept, open_param, opaque(p))
    for b, e, t, at in starts:
        fl.bad = []
        fl.start(b, e, t, at)
        ck.ob(f"{key}:{short(b)}:{len(ck.obls)}", not fl.bad, f"the {what} used in {b.path} does not come from the configuration: " + "; ".join(f"{w} at {a}" for a, w in fl.bad[:3]), fl.bad[0][0] if fl.bad else at)
    ck.floor(f"uses of the {what}", len(starts), 4)
    ck.count(f"steps followed for the {what}", len(fl.seen))


def one(t):
    t = peel(t)
    return t.op == "k" and t.a[0] == 1


def pow2(t):
    """bits when t is 1 << bits"""
    t = peel(t)
    if t.op == "bin" and t.a[0] == "Shl" and one(t.a[1]):
        return peel(t.a[2])
    if t.op == "call" and re.search(r"::(pow|wrapping_shl)$", str(t.a[0])) and peel(t.a[1][0]).op == "k" and peel(t.a[1][0]).a[0] == (2 if str(t.a[0]).endswith("pow") else 1):
        return peel(t.a[1][1])
    return None


def mask_bits(t):
    """bits when t is 2^bits - 1; "mask" when it is the content of a mask made elsewhere"""
    t = peel(t)
    if t.op == "bin" and t.a[0] == "Sub" and one(t.a[2]):
        return pow2(t.a[1])
    if t.op == "un" and t.a[0] == "Not":
        x = peel(t.a[1])
        if x.op == "bin" and x.a[0] == "Shl" and peel(x.a[1]).op == "k" and peel(x.a[1]).a[0] in (0xFFFFFFFF, -1, 2**64 - 1):
            return peel(x.a[2])
    if t.op == "call" and re.search(r"::(wrapping_sub|saturating_sub)$", str(t.a[0])) and one(t.a[1][1]):
        return pow2(t.a[1][0])
    return None


def content(t, p=None, own=None):
    """(what, bits) of the number inside a feature index"""
    t = peel(t)
    if t.op == "par":
        return "given", None
    if t.op == "f" and t.a[1] == "0" and typeof(p, own, t.a[0]) is not None and typeof(p, own, t.a[0]).s.endswith("FeatureIndex") or t.op == "k" and t.a[0] == 0:
        return "given", None
    if t.op == "bin" and t.a[0] == "BitAnd":
        for m in (t.a[2], t.a[1]):
            b = mask_bits(m)
            if b is not None:
                return "masked", b
            x = peel(m)
            if x.op == "f" and x.a[1] == "0":
                o = typeof(p, own, x.a[0])
                if o is not None and (o.s.endswith("FeatureMask") or o.k == "closure"):
                    return "masked", x.a[0]
                if o is None and not any(s.op in ("bin", "call") for s in subterms(x)):
                    return "masked", x.a[0]
    if t.op == "bin" and t.a[0] == "Rem":
        b = pow2(t.a[2])
        if b is not None:
            return "masked", b
    if t.op == "bin" and (t.a[0] == "Div" and peel(t.a[2]).op == "k" and peel(t.a[2]).a[0] >= 2 or t.a[0] == "Shr" and peel(t.a[2]).op == "k" and peel(t.a[2]).a[0] >= 1):
        b = pow2(t.a[1])
        if b is not None:
            return "middle", b
    b = pow2(t)
    if b is not None:
        return "size", b
    # a counter of a range that ends at a table's size
    for s in subterms(t):
        if s.op == "agg" and s.a[0].endswith("ops::range::Range") or s.op == "agg" and s.a[0].endswith("::Range"):
            d = dict(zip(s.a[2], s.a[3]))
            en = peel(d["end"])
            if t.op != "bin" and any(y.op == "f" and "size" in y.a[1] for y in subterms(en)):
                return "counter", None
    return None, None
