"""Exact algebra on value terms of floating-point code, read as real-number formulas: rational functions with exponentials.

A formula is a pair of Laurent polynomials (numerator, denominator) over atoms; exp(sum of monomials) becomes a product of one
exponential atom per monomial, so exp(a)*exp(-a) = 1 holds by construction.  Two formulas are equal iff cross-multiplication gives
the same polynomial: a normal form, no numerical evaluation and no solver."""
import re
from fractions import Fraction
from engine import Term, pp


class NotAlgebraic(Exception):
    pass


# polynomial: {frozenset of (atom, exponent): coefficient}
ONE = {frozenset(): Fraction(1)}


def p_add(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r


def p_mul(a, b):
    r = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            m = dict(k1)
            for x, n in k2:
                m[x] = m.get(x, 0) + n
            k = frozenset((x, n) for x, n in m.items() if n)
            r[k] = r.get(k, 0) + v1 * v2
            if not r[k]:
                del r[k]
    return r


class R:
    """rational function"""

    def __init__(self, n, d=ONE):
        if not d:
            raise NotAlgebraic("division by zero")
        if len(d) == 1:
            (k, v), = d.items()
            n = p_mul(n, {frozenset((x, -e) for x, e in k): 1 / v})
            d = ONE
        self.n, self.d = n, d

    def __add__(self, o):
        return R(p_add(self.n, o.n), self.d) if self.d == o.d else R(p_add(p_mul(self.n, o.d), p_mul(o.n, self.d)), p_mul(self.d, o.d))

    def __neg__(self):
        return R({k: -v for k, v in self.n.items()}, self.d)

    def __sub__(self, o):
        return self + -o

    def __mul__(self, o):
        return R(p_mul(self.n, o.n), p_mul(self.d, o.d))

    def __truediv__(self, o):
        return R(p_mul(self.n, o.d), p_mul(self.d, o.n))

    def __eq__(self, o):
        return p_mul(self.n, o.d) == p_mul(o.n, self.d)

    def zero(self):
        return not self.n

    def atoms(self):
        return {x for p in (self.n, self.d) for k in p for x, _ in k}

    def key(self):
        return (frozenset(self.n.items()), frozenset(self.d.items()))

    def __hash__(self):
        return hash(self.key())

    def show(self):
        def sp(p):
            return " + ".join(f"{v}*" + "*".join(f"{show(x)}^{n}" for x, n in sorted(k, key=repr)) if k else str(v) for k, v in sorted(p.items(), key=repr)) or "0"

        return sp(self.n) + ("" if self.d == ONE else " / (" + sp(self.d) + ")")


def show(x):
    if isinstance(x, tuple) and x[0] == "E":
        return "exp(" + "*".join(f"{show(y)}^{n}" for y, n in sorted(x[1], key=repr)) + ")"
    if isinstance(x, tuple) and x[0] == "ln":
        return "ln(" + x[1].show() + ")"
    return x if isinstance(x, str) else pp(x) if isinstance(x, Term) else repr(x)


def const(v):
    v = Fraction(v)
    return R({frozenset(): v} if v else {})


def sym(x):
    return R({frozenset([(x, 1)]): Fraction(1)})


def exp(r):
    if r.d != ONE:
        # one opaque exponential
        return sym(("Er", r))
    out = const(1)
    for k, v in r.n.items():
        # exp(v*m) = exp(m/q)^(v*q): fractions of a monomial are kept apart
        q = v.denominator
        m = ("E", k if q == 1 else frozenset(k | {("1/%d" % q, 1)}))
        out = out * R({frozenset([(m, v.numerator)]): Fraction(1)})
    return out


def ln(r):
    return sym(("ln", r))


def fconst(t):
    if t.op == "k" and isinstance(t.a[0], tuple) and t.a[0] and t.a[0][0] == "f":
        return Fraction(str(t.a[0][1]))
    if t.op == "k" and isinstance(t.a[0], int) and not isinstance(t.a[0], bool):
        return Fraction(t.a[0])
    return None


def of(t, leaf, memo=None):
    """term -> R.  leaf(t) returns an R for what is to be seen as a symbol (or None to look inside)"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    r = leaf(t)
    if r is None:
        r = _of(t, leaf, memo)
    memo[t] = r
    return r


def _of(t, leaf, memo):
    f = lambda x: of(x, leaf, memo)
    c = fconst(t)
    if c is not None:
        return const(c)
    if t.op == "bin" and t.a[0] in ("Add", "Sub", "Mul", "Div"):
        a, b = f(t.a[1]), f(t.a[2])
        return {"Add": R.__add__, "Sub": R.__sub__, "Mul": R.__mul__, "Div": R.__truediv__}[t.a[0]](a, b)
    if t.op == "un" and t.a[0] == "Neg":
        return -f(t.a[1])
    if t.op == "cast":
        return f(t.a[1])
    if t.op == "call":
        n = t.a[0]
        n = n if isinstance(n, str) else str(n)
        a = t.a[1]
        m = re.search(r"f(?:32|64)::(?:\w+::)*(\w+)$", n) or re.search(r"(?:^|::)(\w+)$", n)
        m = m and m.group(1)
        if m == "exp":
            return exp(f(a[0]))
        if m == "exp_m1":
            return exp(f(a[0])) - const(1)
        if m == "ln":
            return ln(f(a[0]))
        if m == "ln_1p":
            return ln(f(a[0]) + const(1))
        if m == "recip":
            return const(1) / f(a[0])
        if m in ("powi", "powf"):
            k = fconst(a[1])
            if k is not None and k.denominator == 1 and 0 <= k <= 8:
                r = const(1)
                for _ in range(int(k)):
                    r = r * f(a[0])
                return r
        if m == "mul_add":
            return f(a[0]) * f(a[1]) + f(a[2])
        for tr, g in (("Add::add", R.__add__), ("Sub::sub", R.__sub__), ("Mul::mul", R.__mul__), ("Div::div", R.__truediv__)):
            if n.endswith(tr) and len(a) == 2:
                return g(f(a[0]), f(a[1]))
    raise NotAlgebraic(pp(t)[:200])


def diff(r, x):
    """derivative with respect to the symbol x"""

    def datom(a):
        if a == x:
            return const(1)
        if isinstance(a, tuple) and a[0] == "E":
            m = R({frozenset((y, n) for y, n in a[1] if not (isinstance(y, str) and y.startswith("1/"))): Fraction(1)})
            q = 1
            for y, n in a[1]:
                if isinstance(y, str) and y.startswith("1/"):
                    q *= int(y[2:])
            return sym(a) * diff(m, x) * const(Fraction(1, q))
        if isinstance(a, tuple) and a[0] == "Er":
            return sym(a) * diff(a[1], x)
        if isinstance(a, tuple) and a[0] == "ln":
            return diff(a[1], x) / a[1]
        return const(0)

    def dp(p):
        out = const(0)
        for k, v in p.items():
            for a, n in k:
                d = datom(a)
                if d.zero():
                    continue
                m = dict(k)
                m[a] = n - 1
                out = out + R({frozenset((y, e) for y, e in m.items() if e): v * n}) * d
        return out

    n, d = R(r.n), R(r.d)
    return (dp(r.n) * d - n * dp(r.d)) / (d * d)


def subst(r, x, v):
    """replace the symbol x by the formula v"""

    def satom(a):
        if a == x:
            return v
        if isinstance(a, tuple) and a[0] == "E":
            q = 1
            m = const(1)
            for y, n in a[1]:
                if isinstance(y, str) and y.startswith("1/"):
                    q *= int(y[2:])
                else:
                    m = m * pw(satom(y), n)
            return exp(m * const(Fraction(1, q)))
        if isinstance(a, tuple) and a[0] == "Er":
            return exp(subst(a[1], x, v))
        if isinstance(a, tuple) and a[0] == "ln":
            return ln(subst(a[1], x, v))
        return sym(a)

    def sp(p):
        out = const(0)
        for k, c in p.items():
            m = const(c)
            for a, n in k:
                m = m * pw(satom(a), n)
            out = out + m
        return out

    return sp(r.n) / sp(r.d)


def pw(r, n):
    out = const(1)
    for _ in range(abs(n)):
        out = out * r
    return out if n >= 0 else const(1) / out


def coefficient(r, a):
    """(c, rest) with r = c*a + rest, neither containing a; None when r is not linear in the atom a"""
    c, rest = {}, {}
    for k, v in r.n.items():
        e = dict(k).get(a, 0)
        if e == 0:
            rest[k] = v
        elif e == 1:
            c[frozenset((y, n) for y, n in k if y != a)] = v
        else:
            return None
    if a in R(r.d).atoms():
        return None
    return R(c, r.d), R(rest, r.d)
