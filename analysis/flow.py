"""Where values come from: a value used in one function is traced back through parameters to the arguments of every caller, through
fields to every construction of the struct, through captures to the enclosing function, until it reaches accepted origins."""
import re
import q
from engine import Engine, pp, subterms

_sites = {}


def sites(p):
    """callee key -> bodies that call it; keys are body ids and (trait, method) for calls not resolved to one body"""
    k = id(p)
    if k not in _sites:
        m = {}
        for b in p.bodies.values():
            if b.crate not in p.crates or b.derived or b.kind not in ("fn", "method", "closure"):
                continue
            for f, sp, _t in q.callees(p, b):
                if f is None:
                    continue
                ks = {f.get("id"), (f.get("r") or {}).get("id")}
                if f.get("trait"):
                    ks.add((f["trait"], f.get("m")))
                for x in ks:
                    if x:
                        m.setdefault(x, set()).add(b.id)
            for f in q.fn_consts(b):
                for x in (f.get("id"), (f.get("r") or {}).get("id")):
                    if x:
                        m.setdefault(x, set()).add(b.id)
        _sites[k] = m
    return _sites[k]


def callers(p, b):
    m = sites(p)
    ids = set(m.get(b.id, ()))
    if b.trait:
        ids |= m.get((b.trait, b.m), set())
    return [p.bodies[i] for i in sorted(ids) if not re.search(r"__py(function|method)_|<impl .*>::trampoline", p.bodies[i].path)]


def names(b):
    r = {b.path}
    if b.trait:
        r.add(f"{b.trait}::{b.m}")
    return r


def typeof(p, b, t):
    """type of a parameter or of a field path starting at one"""
    if t.op == "par":
        i = index(b, t.a[0])
        return b.lty(i).strip() if i else None
    if t.op == "deref":
        return typeof(p, b, t.a[0])
    if t.op == "f":
        o = typeof(p, b, t.a[0])
        if o is None:
            ts = {d["types"][f["t"]].strip().s: d["types"][f["t"]].strip() for a, d in p.adts.items() if d["crate"] in p.crates for v in d["vs"] for f in v["f"] if f["n"] == t.a[1] and not f["n"].isdigit()}
            return list(ts.values())[0] if len(ts) == 1 else None
        if o.k != "adt" or o.adt not in p.adts:
            return None
        d = p.adts[o.adt]
        for v in d["vs"]:
            for f in v["f"]:
                if f["n"] == t.a[1]:
                    return d["types"][f["t"]].strip()
    return None


def index(b, name):
    for i in range(1, b.argc + 1):
        if b.lname(i) == name or name == f"p{i}":
            return i
    return None


def flat(e, t):
    if t.op != "phi":
        return [t]
    out, seen, st = [], {t}, [t]
    while st:
        for x in e.phi_in.get(st.pop(), ()):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi":
                st.append(x)
            elif x.op != "zst":
                out.append(x)
    return out


def peel(t):
    while True:
        if t.op == "cast":
            t = t.a[1]
        elif t.op == "deref":
            t = t.a[0]
        elif t.op == "agg" and len(t.a[3]) == 1 and t.a[2][:1] == ("0",):
            t = t.a[3][0]
        elif t.op == "f" and t.a[1] == "0" and t.a[0].op == "agg" and len(t.a[0].a[3]) == 1:
            t = t.a[0].a[3][0]
        elif t.op == "ref" and isinstance(t.a[0], tuple) and t.a[0][0] == "M" and not t.a[1]:
            t = t.a[0][1]
        else:
            return t


class Flow:
    """accept(flow, body, engine, term) -> True (good origin), str (bad, why), None (keep tracing).
    open_param(body, i) -> True when a parameter without callers is a good origin"""

    def __init__(self, p, accept, open_param=lambda b, i: False, opaque=None):
        self.p, self.accept, self.open_param, self.opaque = p, accept, open_param, opaque
        self.seen, self.bad, self.good, self.todo = set(), [], 0, []
        self._e = {}

    def engine(self, b, keep):
        """engine over b in which the functions of keep are not entered"""
        k = (b.id, keep)
        if k not in self._e:
            op = self.opaque
            self._e[k] = Engine(self.p, b, opaque=lambda b, f: f["path"] in keep or (f.get("r") or {}).get("path") in keep or bool(op and op(b, f)))
        return self._e[k]

    def start(self, b, e, t, at):
        self.todo.append((b, e, t, at))
        return self.drain()

    def param(self, b, i, at=None):
        self.todo.append((b, None, i, at or b.path))
        return self.drain()

    def drain(self):
        while self.todo:
            b, e, t, at = self.todo.pop()
            if isinstance(t, int):
                self.callers_of(b, t, at)
            else:
                self.term(b, e, t, at)

    def callers_of(self, b, i, at):
        if ("p", b.id, i) in self.seen:
            return
        self.seen.add(("p", b.id, i))
        if b.kind == "closure":
            return self.captured(b, i, at)
        cs = callers(self.p, b)
        ns = frozenset(names(b))
        n = 0
        for c in cs:
            root = self.p.bodies.get(c.root, c) if c.kind == "closure" else c
            done = False
            for cand in ([root, c] if root is not c else [c]):
                e = self.engine(cand, ns)
                xs = [x for x in e.events if x.kind in ("call", "panic") and (x.path in ns or x.callee and x.callee.get("path") in ns) and len(x.args) >= i]
                for x in xs:
                    n += 1
                    done = True
                    self.todo.append((cand, e, x.args[i - 1], q.loc(x)))
                if done:
                    break
        if not n:
            if self.open_param(b, i):
                self.good += 1
            elif cs:
                self.bad.append((at, f"the calls of {b.path} could not be followed"))

    def captured(self, b, i, at):
        self.bad.append((at, f"a value handed to a closure in {b.path} could not be followed"))

    def fields_of(self, adt, f, at):
        if ("f", adt, f) in self.seen:
            return
        self.seen.add(("f", adt, f))
        n = 0
        for b in self.p.bodies.values():
            if b.derived or b.crate not in self.p.crates or b.kind not in ("fn", "method", "closure"):
                continue
            if not any(r.get("r") == "agg" and r.get("adt") == adt for bb in b.bb for pl, r, sp in bb["s"]):
                continue
            e = self.engine(b, frozenset())
            vs = set()
            for x in e.events:
                for a in list(x.args) + ([x.ret] if x.ret is not None else []):
                    for s in subterms(a):
                        for s in ([s] if s.op != "phi" else flat(e, s)):
                            for s2 in ([s] if s.op == "agg" else []):
                                if s2.a[0] == adt and f in s2.a[2]:
                                    vs.add(s2)
                                for s3 in s2.a[3]:
                                    if s3.op == "agg" and s3.a[0] == adt and f in s3.a[2]:
                                        vs.add(s3)
            if not vs:
                self.bad.append((b.path, f"the {adt.split('::')[-1]} made in {b.path} was not found"))
            for v in vs:
                n += 1
                self.todo.append((b, e, dict(zip(v.a[2], v.a[3]))[f], b.path))
        if not n:
            self.bad.append((at, f"no construction of {adt} was found"))

    def term(self, b, e, t, at):
        for t in flat(e, peel(t)):
            t = peel(t)
            k = ("t", b.id, t.id)
            if k in self.seen:
                continue
            self.seen.add(k)
            r = self.accept(self, b, e, t)
            if r is True:
                self.good += 1
            elif isinstance(r, str):
                self.bad.append((at, r))
            elif r is not None:
                for x in r:
                    self.todo.append((b, e, x, at))
            elif t.op == "phi":
                self.todo.append((b, e, t, at))
            elif t.op == "par":
                i = index(b, t.a[0])
                if i is None:
                    self.bad.append((at, f"unknown parameter {pp(t)}"))
                else:
                    self.todo.append((b, None, i, at))
            elif t.op == "f":
                o = typeof(self.p, b, t.a[0])
                if o is not None and o.k == "adt" and o.adt in self.p.adts:
                    self.fields_of(o.adt, t.a[1], at)
                elif o is not None and o.k == "closure":
                    self.capture(b, t, at)
                else:
                    self.bad.append((at, f"{pp(t)[:120]} in {b.path}"))
            else:
                self.bad.append((at, f"{pp(t)[:160]}"))

    def capture(self, b, t, at):
        """a captured value: look at the closures made in the enclosing function"""
        root = self.p.bodies.get(b.root)
        n = 0
        if root is not None:
            e = self.engine(root, frozenset())
            for x in e.events:
                for a in x.args:
                    for s in subterms(a):
                        if s.op == "clo" and s.a[0] == b.id:
                            v = s.a[1][int(t.a[1])] if t.a[1].isdigit() and int(t.a[1]) < len(s.a[1]) else None
                            if v is not None:
                                n += 1
                                self.todo.append((root, e, v, at))
        if not n:
            self.bad.append((at, f"captured value {pp(t)[:80]} of {b.path} could not be followed"))
