"""Which parameters and fields hold a number of bits that was range-checked where it came in (at most 31)."""
import collections
import re

import panics
import q
from engine import Engine, Term

HI = 31


class Bits:
    """Demand-driven: a parameter is a checked number of bits if every call in the workspace hands it one: a field of that name, a constant, a parameter that is
    itself checked, or a value that the branches before the call bound.  Functions that nothing in the workspace calls are Rust API: their callers are outside."""

    def __init__(self, D):
        self.D = D
        self.mine = {i: b for i, b in D.bodies.items() if b.crate in D.crates}
        self.calls = collections.defaultdict(set)
        impls = collections.defaultdict(list)
        for b in self.mine.values():
            if b.trait and b.m:
                impls[(b.trait, b.m)].append(b)
        for b in self.mine.values():
            for f, sp, t in q.callees(D, b):
                if not f:
                    continue
                y = q.body_of(D, f)
                for z in [y] if y is not None else impls.get((f.get("trait"), f.get("m")), ()):
                    if z.id in self.mine:
                        self.calls[z.id].add(b.root if b.kind == "closure" else b.id)
        self.memo, self.why, self.engines = {}, {}, {}

    def param(self, b, i):
        """the i-th parameter (from 1) of b"""
        k = (b.id, i)
        if k in self.memo:
            return self.memo[k]
        if not re.fullmatch(r"u8|u32|usize|u64", b.lty(i).s or ""):
            return False
        self.memo[k] = True
        for c in sorted(self.calls.get(b.id, ())):
            c = self.mine.get(c)
            if c is None or c.derived:
                continue
            if self.direct(c, b, i):
                continue
            e, m = self.engine(c)
            xs = [x for x in e.events if x.kind == "call" and self.is_call(x.callee, b)]
            for x in xs:
                if len(x.args) < i or not self.value(c, e, m, x, x.args[i - 1]):
                    self.why[k] = (c, x)
                    self.memo[k] = False
            if not xs:
                self.why[k] = (c, None)
                self.memo[k] = False
        return self.memo[k]

    def direct(self, c, b, i):
        """as far as copies of parameters and fields go"""
        ok = False
        for z in [c] + [z for z in self.mine.values() if z.kind == "closure" and z.root == c.id]:
            for f, sp, t in q.callees(self.D, z):
                if self.is_call(f, b):
                    if len(t["args"]) < i or not self.origin(z, t["args"][i - 1]):
                        return False
                    ok = True
        return ok

    def is_call(self, f, b):
        if not f:
            return False
        y = q.body_of(self.D, f)
        return y is b if y is not None else bool(b.trait) and f.get("trait") == b.trait and f.get("m") == b.m

    def engine(self, c):
        if c.id not in self.engines:
            D = self.D
            e = Engine(D, c, opaque=lambda x, f: x.crate in D.crates and x.kind in ("fn", "method") and not (x.argc == 1 and len(x.bb) <= 2))
            self.engines[c.id] = (e, panics.Must(e, {}))
        return self.engines[c.id]

    def value(self, c, e, m, x, t):
        if not isinstance(t, Term):
            return False
        return all(self.leaf(c, e, m, x, l) for l in panics.leaves(e, t))

    def leaf(self, c, e, m, x, t):
        t = panics.deref(panics.uncast(t))
        k = panics.const(t)
        if k is not None:
            return 0 <= k <= HI
        if t.op == "f" and t.a[1] == "num_bits":
            return True
        if t.op == "par":
            for i in range(1, c.argc + 1):
                if str(t.a[0]) in (c.lname(i), str(i)) and self.param(c, i):
                    return True
        st = m.before(x)
        if st is None:
            return True
        iv = m.iv(st, t)
        return iv is not None and iv[1] is not None and iv[1] <= HI

    def base(self, b):
        """what is known about the parameters of b when it is explored"""
        return {b.lname(i) or str(i) for i in range(1, b.argc + 1) if self.param(b, i)}

    def fields(self):
        """(body, span, ok) of every place where a field of that name is filled in"""
        for b in self.mine.values():
            if b.derived or b.kind not in ("fn", "method", "closure"):
                continue
            for bb in b.bb:
                for pl, r, sp in bb["s"]:
                    if r.get("r") == "agg" and r.get("ak") == "adt" and "num_bits" in (r.get("fn") or ()) and q.user_code(sp):
                        o = r["o"][r["fn"].index("num_bits")]
                        yield b, sp, self.origin(b, o)

    def origin(self, b, o, d=0):
        pl = o.get("m") or o.get("c")
        if "k" in o:
            return isinstance(o["k"].get("int"), (int, str)) and 0 <= int(o["k"]["int"]) <= HI
        if d > 12 or pl is None:
            return False
        if any(isinstance(p, dict) and p.get("n") == "num_bits" for p in pl[1:]):
            return True
        if len(pl) > 1:
            return False
        l = pl[0]
        ds = [(r, None) for bb in b.bb for p, r, sp in bb["s"] if p == [l]] + [(None, bb["t"]) for bb in b.bb if bb["t"]["t"] == "call" and bb["t"].get("dest") == [l]]
        if not ds:
            return 1 <= l <= b.argc and self.param(b, l)
        for r, t in ds:
            if t is not None:
                f = t["f"].get("k", {}).get("fn")
                y = q.body_of(self.D, f) if f else None
                if y is None or not self.accessor(y):
                    return False
            elif r.get("r") not in ("use", "cast") or not self.origin(b, r["o"][0] if isinstance(r["o"], list) else r["o"], d + 1):
                return False
        return True

    def accessor(self, y):
        e = Engine(self.D, y)
        ts = [panics.deref(l) for x in e.events if x.kind == "ret" and x.ctx.depth == 0 for l in panics.leaves(e, x.args[0])]
        return bool(ts) and all(t.op == "f" and t.a[1] == "num_bits" for t in ts)
