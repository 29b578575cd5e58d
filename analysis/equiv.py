"""Equality of value terms taken from two explored functions, up to the naming of loop variables and of call results.

Structural (bisimulation) comparison: two loop/join variables are equal when, assuming they are, every value flowing into one
equals some value flowing into the other and vice versa.  Nonces of effectful calls are ignored; the calls' arguments (which
contain the state they act on) are compared instead."""
from engine import Term, mk, children
from norm import canon


class Eq:
    def __init__(self, e1, e2, ren=None):
        self.e1, self.e2 = e1, e2
        self.ren = ren or (lambda t: (t.a[0], t.a[1]))
        self.no = set()
        self.yes = set()
        self.budget = 400000

    def eq(self, a, b):
        self.asm = self.yes
        self.trail = []
        r = self._eq(canon(a), canon(b))
        # what holds under assumptions that themselves hold, holds
        return r

    def ins(self, e, t):
        """values that can flow into a join, through joins of joins"""
        if e.phi_in.get(t) is None:
            return None
        out, seen, st = [], {t}, [t]
        while st:
            for x in e.phi_in.get(st.pop(), ()):
                x = canon(x)
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "phi" and e.phi_in.get(x) is not None:
                    st.append(x)
                else:
                    out.append(x)
        return out

    def assume(self, k):
        if k not in self.asm:
            self.asm.add(k)
            self.trail.append(k)

    def undo(self, mark):
        while len(self.trail) > mark:
            self.asm.discard(self.trail.pop())

    def _eq(self, a, b):
        if a is b and not a.tags:
            return True
        k = (a, b)
        if k in self.asm:
            return True
        if k in self.no:
            return False
        self.budget -= 1
        if self.budget < 0:
            return False
        mark = len(self.trail)
        r = self._eq1(a, b, k)
        if not r:
            self.undo(mark)
            # a failure under assumptions is a failure: assumptions only ever make more pairs equal
            self.no.add(k)
        else:
            self.assume(k)
        return r

    def _eq1(self, a, b, k):
        if a.op == "phi" and b.op == "phi":
            va, vb = self.ins(self.e1, a), self.ins(self.e2, b)
            if va is None or vb is None:
                self.last = (a, b)
                return a is b
            self.assume(k)
            return self.sets(va, vb)
        if a.op == "phi" or b.op == "phi":
            va = self.ins(self.e1, a) if a.op == "phi" else [a]
            vb = self.ins(self.e2, b) if b.op == "phi" else [b]
            if va is None or vb is None:
                return False
            self.assume(k)
            return self.sets(va, vb)
        if a.op != b.op:
            return False
        if a.op == "call":
            (n1, x1), (n2, x2) = self.ren(a), self.ren(b)
            return n1 == n2 and self.seq(tuple(x1), tuple(x2))
        if a.op == "poly":
            return self.poly(a.a[0], b.a[0])
        return self.seq(a.a, b.a)

    def poly(self, p, q):
        """sums of products: the order of factors and summands is immaterial"""
        if sorted((len(k), c) for k, c in p) != sorted((len(k), c) for k, c in q):
            return False
        return self.pair(list(p), list(q), lambda x, y: x[1] == y[1] and len(x[0]) == len(y[0]) and self.pair(list(x[0]), list(y[0]), self._eq))

    def pair(self, xs, ys, f):
        """a perfect matching (backtracking; a handful of elements)"""
        if not xs:
            return True
        for i, y in enumerate(ys):
            m = len(self.trail)
            if f(xs[0], y) and self.pair(xs[1:], ys[:i] + ys[i + 1 :], f):
                return True
            self.undo(m)
        return False

    def sets(self, va, vb):
        return all(any(self._eq(x, y) for y in vb) for x in va) and all(any(self._eq(x, y) for x in va) for y in vb)

    def seq(self, x, y):
        if len(x) != len(y):
            return False
        for i, j in zip(x, y):
            if isinstance(i, Term):
                if not isinstance(j, Term) or not self._eq(i, j):
                    return False
            elif isinstance(i, tuple):
                if not isinstance(j, tuple) or not self.seq(i, j):
                    return False
            elif i != j:
                return False
        return True


def match(xs, ys, f):
    """None when every element of xs has a partner in ys and vice versa, else the lonely elements"""
    a = [x for x in xs if not any(f(x, y) for y in ys)]
    b = [y for y in ys if not any(f(x, y) for x in xs)]
    return (a, b) if a or b else None
