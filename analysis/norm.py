"""Polynomial normal form of integer terms (ring identities only: Add, Sub, Mul, Neg, constant shifts)."""
from engine import Term, mk, K

_memo = {}


def poly(t, cast=None):
    """{sorted tuple of atoms: coefficient}; cast(ts, inner) -> True when the cast may be seen through"""
    key = (t, id(cast))
    if key in _memo:
        return _memo[key]
    r = _poly(t, cast)
    _memo[key] = r
    return r


def _poly(t, cast):
    if t.op == "k" and isinstance(t.a[0], int) and not isinstance(t.a[0], bool):
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "bin" and t.a[0] in ("Add", "Sub"):
        s = 1 if t.a[0] == "Add" else -1
        r = dict(poly(t.a[1], cast))
        for k, v in poly(t.a[2], cast).items():
            r[k] = r.get(k, 0) + s * v
            if not r[k]:
                del r[k]
        return r
    if t.op == "bin" and t.a[0] == "Mul":
        return mul(poly(t.a[1], cast), poly(t.a[2], cast))
    if t.op == "un" and t.a[0] == "Neg":
        return {k: -v for k, v in poly(t.a[1], cast).items()}
    if t.op == "bin" and t.a[0] == "Shl" and t.a[2].op == "k" and isinstance(t.a[2].a[0], int):
        return mul(poly(t.a[1], cast), {(): 1 << t.a[2].a[0]})
    if t.op == "cast" and cast is not None and cast(t):
        return poly(t.a[1], cast)
    return {(t.id,): 1} if _atoms.setdefault(t.id, t) else {}


_atoms = {}


def mul(a, b):
    r = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            k = tuple(sorted(k1 + k2))
            r[k] = r.get(k, 0) + v1 * v2
            if not r[k]:
                del r[k]
    return r


def same(a, b, cast=None):
    return a is b or poly(a, cast) == poly(b, cast)


def atom(i):
    return _atoms[i]


def canon(t, memo=None):
    """rebuild a term with integer arithmetic in normal form, so that equal polynomials are the same term"""
    memo = {} if memo is None else memo
    return _canon(t, memo)


def _canon(t, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "bin" and t.a[0] in ("Add", "Sub", "Mul"):
        p = poly(mk("bin", t.a[0], _canon(t.a[1], memo), _canon(t.a[2], memo)))
        r = mk("poly", tuple(sorted((tuple(_atoms[i] for i in k), v) for k, v in p.items())))
        if len(p) == 1 and list(p.values()) == [1] and len(list(p)[0]) == 1:
            r = _atoms[list(p)[0][0]]
    elif t.op == "phi":
        r = t
    else:
        a = tuple(_c(x, memo) for x in t.a)
        r = t if a == t.a else mk(t.op, *a)
    memo[t] = r
    return r


def _c(x, memo):
    if isinstance(x, Term):
        return _canon(x, memo)
    if isinstance(x, tuple):
        return tuple(_c(y, memo) for y in x)
    return x
