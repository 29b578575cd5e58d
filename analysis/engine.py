"""Inlining abstract interpreter over MIR.

Explores the exploded control-flow graph of one entry function: nodes are (call context, basic block, known enum/bool
variants of the live locals).  Values are hash-consed terms (a value numbering); loops are closed by phi terms.  Nothing is
executed and no path condition is handed to a solver: branches are only pruned when the tested term is already known.
"""
import heapq, os, re, sys
from collections import defaultdict
import facts
from facts import Body

sys.setrecursionlimit(20000)


# --------------------------------------------------------------------------- terms
class Term:
    __slots__ = ("op", "a", "id", "tags", "_h", "depth", "_c", "__weakref__")

    def __repr__(self):
        return pp(self)

    def __hash__(self):
        return self.id

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_EMPTY = frozenset()


def mk(op, *a):
    key = (op, a)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        t.id = len(_tab)
        t._c = None
        tags = None
        d = 0
        for x in a:
            if isinstance(x, Term):
                if x.tags:
                    tags = x.tags if tags is None else (tags if x.tags <= tags else tags | x.tags)
                if x.depth > d:
                    d = x.depth
            elif isinstance(x, tuple):
                for y in _terms_in(x):
                    if y.tags:
                        tags = y.tags if tags is None else (tags if y.tags <= tags else tags | y.tags)
                    if y.depth > d:
                        d = y.depth
        if op == "phi":
            tg = ("phi", a[0])
            tags = frozenset([tg]) if tags is None else tags | {tg}
        elif op == "call" and a[2] is not None:
            tg = ("n", a[2])
            tags = frozenset([tg]) if tags is None else tags | {tg}
        t.tags = tags or _EMPTY
        t.depth = d + 1
        _tab[key] = t
    return t


def _terms_in(tp):
    for y in tp:
        if isinstance(y, Term):
            yield y
        elif isinstance(y, tuple):
            yield from _terms_in(y)


# constructors -------------------------------------------------------------
def K(v):
    return mk("k", v, "b") if isinstance(v, bool) else mk("k", v)


UNIT = mk("tup", ())
TRUE = K(True)
FALSE = K(False)


def Agg(adt, variant, names, vals):
    return mk("agg", adt, variant, tuple(names), tuple(vals))


def Call(name, args, nonce=None):
    return mk("call", name, tuple(args), nonce)


def subterms(t, seen=None):
    """all distinct subterms (preorder)"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for c in children(x):
            st.append(c)


def children(x):
    for y in x.a:
        if isinstance(y, Term):
            yield y
        elif isinstance(y, tuple):
            yield from _terms_in(y)


def contains(t, u):
    return any(x is u for x in subterms(t))


def pp(t, d=0):
    if not isinstance(t, Term):
        return str(t)
    if d > 14:
        return "…"
    o = t.op
    a = t.a
    P = lambda x: pp(x, d + 1)
    if o == "k":
        return repr(a[0])
    if o == "par":
        return str(a[0])
    if o == "agg":
        n = a[0].split("::")[-1]
        n = n if a[1] == n else f"{n}::{a[1]}"
        return n + ("{" + ", ".join(f"{k}:{P(v)}" for k, v in zip(a[2], a[3])) + "}" if a[3] else "")
    if o in ("tup", "arr"):
        return ("(%s)" if o == "tup" else "[%s]") % ", ".join(P(x) for x in a[0])
    if o == "clo":
        return "closure{" + ", ".join(P(x) for x in a[1]) + "}"
    if o == "f":
        return P(a[0]) + "." + a[1]
    if o == "vf":
        return f"({P(a[0])} as {a[1]}).{a[2]}"
    if o == "idx":
        return f"{P(a[0])}[{P(a[1])}]"
    if o == "ref":
        return f"&{'mut ' if a[2] else ''}{pproot(a[0])}" + "".join(pppath(x) for x in a[1])
    if o == "call":
        return f"{a[0]}({', '.join(P(x) for x in a[1])})" + (f"#{a[2]}" if a[2] is not None else "")
    if o == "bin":
        return f"({P(a[1])} {a[0]} {P(a[2])})"
    if o == "un":
        return f"{a[0]}({P(a[1])})"
    if o == "cast":
        return f"({P(a[1])} as {a[0]})"
    if o == "discr":
        return f"discr({P(a[0])})"
    if o == "phi":
        return f"phi{a[0]}:{pproot(a[1][0]) if a[1] else ''}{''.join(pppath(x) for x in a[1][1:])}"
    if o == "post":
        return f"post({P(a[0])},{a[1]})"
    return f"{o}({', '.join(P(x) if isinstance(x, Term) else str(x) for x in a)})"


def pproot(r):
    if isinstance(r, tuple):
        if r[0] == "M":
            return f"*{pp(r[1], 8)}"
        if r[0] == "L":
            return f"L{r[1].id}.{r[2]}"
        return str(r)
    return str(r)


def pppath(x):
    if x[0] == "f":
        return "." + x[1]
    if x[0] == "vf":
        return f"<{x[1]}>.{x[2]}"
    if x[0] == "idx":
        return f"[{pp(x[1], 8)}]"
    return str(x)


# --------------------------------------------------------------------------- enum tables
class Enums:
    def __init__(self, prog):
        self.by = {}
        for c, types in prog.crates.items():
            for t in types:
                if t.k == "adt" and t.vs:
                    self.by.setdefault(t.adt, (t.vs, [int(x) for x in t.ds or []]))
        self.by.setdefault("core::option::Option", (["None", "Some"], [0, 1]))
        self.by.setdefault("core::result::Result", (["Ok", "Err"], [0, 1]))
        self.by.setdefault("core::ops::control_flow::ControlFlow", (["Continue", "Break"], [0, 1]))

    def discr(self, adt, variant):
        e = self.by.get(adt)
        if not e or variant not in e[0]:
            return None
        i = e[0].index(variant)
        return e[1][i] if e[1] else i

    def variant(self, adt, d):
        e = self.by.get(adt)
        if not e:
            return None
        for i, v in enumerate(e[0]):
            if (e[1][i] if e[1] else i) == d:
                return v
        return None


# --------------------------------------------------------------------------- projections
def proj(t, p):
    """project a value term"""
    k = p[0]
    while t.op == "upd":
        # upd(base, pathelem, value)
        if t.a[1] == p:
            return t.a[2]
        if k == "idx" or t.a[1][0] == "idx":
            q = t.a[1]
            if k == "idx" and q[0] == "idx":
                if q[1].op == "k" and p[1].op == "k":
                    t = t.a[0]
                    continue
                break
            if q[0] == k:
                break
            break
        if t.a[1][0] == k:
            t = t.a[0]
            continue
        break
    if k == "f":
        if t.op == "agg":
            if p[1] in t.a[2]:
                return t.a[3][t.a[2].index(p[1])]
        elif t.op == "tup":
            i = int(p[1]) if p[1].isdigit() else -1
            if 0 <= i < len(t.a[0]):
                return t.a[0][i]
        elif t.op == "clo":
            i = int(p[1]) if p[1].isdigit() else -1
            if 0 <= i < len(t.a[1]):
                return t.a[1][i]
        elif t.op == "ovf" and p[1] == "0":
            return t.a[0]
        elif t.op == "ovf":
            return mk("ovfbit", t.a[0])
        return mk("f", t, p[1])
    if k == "vf":
        if t.op == "agg" and t.a[1] == p[1] and p[2] in t.a[2]:
            return t.a[3][t.a[2].index(p[2])]
        return mk("vf", t, p[1], p[2])
    if k == "idx":
        if t.op == "arr" and p[1].op == "k" and isinstance(p[1].a[0], int) and 0 <= p[1].a[0] < len(t.a[0]):
            return t.a[0][p[1].a[0]]
        if t.op == "rep":
            return t.a[0]
        return mk("idx", t, p[1])
    if k == "sub":
        return mk("sub", t, p[1], p[2])
    return mk("prj", t, p)


def setp(t, path, v):
    if not path:
        return v
    p = path[0]
    inner = setp(proj(t, p), path[1:], v)
    if p[0] == "f":
        if t.op == "agg" and p[1] in t.a[2]:
            i = t.a[2].index(p[1])
            return Agg(t.a[0], t.a[1], t.a[2], t.a[3][:i] + (inner,) + t.a[3][i + 1 :])
        if t.op == "tup" and p[1].isdigit() and int(p[1]) < len(t.a[0]):
            i = int(p[1])
            return mk("tup", t.a[0][:i] + (inner,) + t.a[0][i + 1 :])
        if t.op == "clo" and p[1].isdigit() and int(p[1]) < len(t.a[1]):
            i = int(p[1])
            return mk("clo", t.a[0], t.a[1][:i] + (inner,) + t.a[1][i + 1 :])
    if p[0] == "vf" and t.op == "agg" and t.a[1] == p[1] and p[2] in t.a[2]:
        i = t.a[2].index(p[2])
        return Agg(t.a[0], t.a[1], t.a[2], t.a[3][:i] + (inner,) + t.a[3][i + 1 :])
    # symbolic record: drop an earlier update of the same location; keep updates sorted by insertion
    if proj(t, p) is inner and t.op != "undef":
        return t
    b = t
    chain = []
    while b.op == "upd" and b.a[1] != p and b.a[1][0] != "idx" and p[0] != "idx":
        chain.append(b)
        b = b.a[0]
    if b.op == "upd" and b.a[1] == p:
        b = b.a[0]
        r = mk("upd", b, p, inner)
        for c in reversed(chain):
            r = mk("upd", r, c.a[1], c.a[2])
        return canon_upd(r)
    return canon_upd(mk("upd", t, p, inner))


def canon_upd(t):
    """order adjacent field updates so that reordered independent writes give the same term"""
    ups = []
    b = t
    while b.op == "upd" and b.a[1][0] == "f":
        ups.append((b.a[1], b.a[2]))
        b = b.a[0]
    if len(ups) < 2:
        return t
    ups.sort(key=lambda x: x[0][1])
    r = b
    for p, v in ups:
        if proj(b, p) is v:
            continue
        r = mk("upd", r, p, v)
    return r


# --------------------------------------------------------------------------- contexts
class Ctx:
    __slots__ = ("parent", "bb", "body", "id", "depth", "dest", "to", "chain")
    n = 0

    def __init__(self, parent, bb, body):
        self.parent = parent
        self.bb = bb
        self.body = body
        self.dest = None
        self.to = None
        self.depth = 0 if parent is None else parent.depth + 1

    def frames(self):
        c = self
        while c is not None:
            yield c
            c = c.parent

    def stack(self):
        return [c.body.path for c in self.frames()]


class BInfo:
    """per-body precomputed info"""

    def __init__(self, b):
        self.b = b
        n = len(b.bb)
        self.succ = []
        use = []
        deff = []
        self.addr = set()
        for i, bb in enumerate(b.bb):
            u = set()
            d = set()
            for p, r, _ in bb["s"]:
                for l in rv_uses(r):
                    if l not in d:
                        u.add(l)
                if r["r"] in ("ref", "rawptr"):
                    if "*" not in r["p"][1:]:
                        self.addr.add(r["p"][0])
                for l in place_uses(p):
                    if l not in d:
                        u.add(l)
                if len(p) == 1:
                    d.add(p[0])
                else:
                    if p[0] not in d:
                        u.add(p[0])
            t = bb["t"]
            for l in term_uses(t):
                if l not in d:
                    u.add(l)
            if t["t"] == "call":
                p = t["dest"]
                for l in place_uses(p):
                    if l not in d:
                        u.add(l)
                if len(p) > 1 and p[0] not in d:
                    u.add(p[0])
            if t["t"] == "return" and 0 not in d:
                u.add(0)
            use.append(u)
            # the call destination is defined on the edge; treat as def at end
            if t["t"] == "call" and len(t["dest"]) == 1:
                d = d | {t["dest"][0]}
            deff.append(d)
            self.succ.append(succs(t))
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in self.succ[i]:
                    out |= live[s]
                nl = use[i] | (out - deff[i])
                if nl != live[i]:
                    live[i] = nl
                    ch = True
        self.live = live
        # rpo
        order = []
        seen = set()

        def dfs(s):
            st = [(s, iter(self.succ[s]))]
            seen.add(s)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter(self.succ[y])))
                        break
                else:
                    order.append(x)
                    st.pop()

        if n:
            dfs(0)
        order.reverse()
        self.rpo = {x: i for i, x in enumerate(order)}
        # drop flags
        self.flags = set()
        if hasattr(b, "locals") and b.locals:
            asg = defaultdict(list)
            for i, bb in enumerate(b.bb):
                for p, r, _ in bb["s"]:
                    if len(p) == 1:
                        asg[p[0]].append((i, r))
                if bb["t"]["t"] == "call":
                    asg[bb["t"]["dest"][0]].append((i, None))
            for l, rs in asg.items():
                if l == 0 or l <= b.argc or b.lname(l):
                    continue
                try:
                    if b.lty(l).s != "bool":
                        continue
                except Exception:
                    continue
                if not all(r is not None and r["r"] == "use" and "k" in r["o"][0] for _, r in rs):
                    continue
                if not any(i == 0 for i, r in rs):
                    continue
                self.flags.add(l)


def place_uses(p):
    for e in p[1:]:
        if isinstance(e, dict) and "i" in e:
            yield e["i"]


def op_uses(o):
    p = o.get("c") or o.get("m")
    if p:
        yield p[0]
        yield from place_uses(p)


def rv_uses(r):
    for o in r.get("o", ()):
        yield from op_uses(o)
    if "p" in r:
        yield r["p"][0]
        yield from place_uses(r["p"])


def term_uses(t):
    k = t["t"]
    if k in ("switch", "assert"):
        yield from op_uses(t["o"])
        for o in t.get("ops", ()):
            yield from op_uses(o)
    elif k == "call":
        yield from op_uses(t["f"])
        for o in t["args"]:
            yield from op_uses(o)
    elif k == "drop":
        yield t["p"][0]


def succs(t):
    k = t["t"]
    if k == "goto":
        return [t["to"]]
    if k == "switch":
        return [b for _, b in t["v"]] + [t["else"]]
    if k in ("drop", "assert"):
        return [t["to"]]
    if k == "call":
        return [t["to"]] if t["to"] is not None else []
    if k == "syn":
        return list(t["to"])
    return []


PART = ("X", "part")  # a root models may set to keep states apart (an abstract program counter of theirs)


CASTFROM = {}  # type of the value that a cast term converts


class Event:
    __slots__ = ("kind", "name", "path", "args", "refs", "ret", "span", "ctx", "callee", "xn", "i", "dest_ty", "argtys", "mem")

    def __init__(self, kind, name, **kw):
        self.kind = kind
        self.name = name
        for f in Event.__slots__[2:]:
            setattr(self, f, kw.get(f))

    def __repr__(self):
        return f"<{self.kind} {self.name} {self.args} -> {self.ret}>"

    def where(self):
        """function names from the inlined call down to the entry (no line numbers)"""
        return self.ctx.body.path if self.ctx else "?"


class XNode:
    __slots__ = ("ctx", "bb", "key", "id", "ins", "state", "facts", "succ", "events", "visits", "sticky", "phis", "prio", "queued", "term")

    def __repr__(self):
        return f"<x{self.id} {self.ctx.body.path}:bb{self.bb} {self.key}>"


LEN_FN = re.compile(r"^(alloc::vec::Vec|core::slice|core::str|alloc::string::String|smallvec::SmallVec).*::len$")


def strip_generics(p):
    out = []
    d = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            if d == 0 and out and "".join(out[-2:]) == "::":
                # turbofish
                d = 1
                del out[-2:]
            elif d > 0:
                d += 1
            else:
                out.append(c)
        elif c == ">" and d > 0 and p[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


def callee_name(f):
    """short normalised callee name"""
    if f.get("trait") and f.get("m"):
        return f["trait"].split("::")[-1].split("<")[0] + "::" + f["m"]
    p = strip_generics(f["path"])
    p = re.sub(r"<impl [^>]*>::", "", p)
    seg = p.split("::")
    return "::".join(seg[-2:]) if len(seg) > 1 else p


from models import MODELS, is_pure  # noqa: E402


class Engine:
    def __init__(self, prog, entry, opaque=(), inline=None, cap=32, maxdepth=60, args=None, corr=True, devirt=None, models=None, maxnodes=60000, max_recur=1, init=None, unroll=False):
        self.unroll = unroll
        self.prog = prog
        self.enums = getattr(prog, "_enums", None) or Enums(prog)
        prog._enums = self.enums
        self.binfo = prog.__dict__.setdefault("_binfo", {})
        self.entry = entry
        self.opaque = opaque if callable(opaque) else (lambda b, f, s=set(opaque): b.path in s or callee_name(f) in s)
        self.cap = cap
        self.maxdepth = maxdepth
        self.maxnodes = maxnodes
        self.devirt = devirt
        self.max_recur = max_recur
        self.models = dict(MODELS)
        if models:
            self.models.update(models)
        self.entry_args = args
        self.init = init or {}
        self.groups = {}  # switch location -> group id (repeated conditions)
        self.run()
        self.corr = False
        if corr and self.find_groups():
            # second pass: keep the outcomes of conditions that are tested more than once apart
            try:
                self.run()
                self.corr = True
            except facts.ToolError:
                self.groups = {}
                self.run()

    # ---------------------------------------------------------------- setup
    def info(self, b):
        x = self.binfo.get(b.id)
        if x is None:
            x = self.binfo[b.id] = BInfo(b)
        return x

    def run(self):
        self.ctxs = {}
        self.xn = {}
        self.nodes = []
        self.heap = []
        self.phi_in = {}
        self.events_cache = {}
        self.condlog = defaultdict(set)
        self.keycount = defaultdict(set)
        self.caphit = set()
        self.final = False
        root = self.mkctx(None, None, self.entry)
        self.root = root
        st = {}
        self.params = []
        for i in range(1, self.entry.argc + 1):
            nm = self.entry.lname(i) or f"p{i}"
            v = mk("par", nm) if not self.entry_args or i - 1 >= len(self.entry_args) or self.entry_args[i - 1] is None else self.entry_args[i - 1]
            st[("L", root, i)] = v
            self.params.append(v)
            if nm in self.init:
                st[("M", v)] = self.init[nm](v)
        n = self.node(root, 0, self.keyof(root, 0, st, {}))
        n.ins[("entry", 0)] = (st, {})
        self.start = n
        self.push(n)
        steps = 0
        while self.heap:
            _, _, n = heapq.heappop(self.heap)
            n.queued = False
            steps += 1
            if len(self.nodes) > self.maxnodes or steps > self.maxnodes * 12:
                raise facts.ToolError(f"exploration of {self.entry.path} exceeds {self.maxnodes} nodes")
            self.process(n)
        # final pass: collect events of reachable nodes
        reach = set()
        st = [self.start]
        while st:
            x = st.pop()
            if x in reach:
                continue
            reach.add(x)
            for y, _ in x.succ:
                st.append(y)
        self.nodes = [x for x in self.nodes if x in reach]
        self.nodes.sort(key=lambda x: (x.prio, x.id))
        self.preds = defaultdict(list)
        for x in self.nodes:
            for y, lab in x.succ:
                self.preds[y].append((x, lab))
        self.events = []
        for x in self.nodes:
            for i, e in enumerate(x.events):
                e.xn = x
                e.i = i
                self.events.append(e)

    def find_groups(self):
        g = {}
        k = 0
        for cond, locs in self.condlog.items():
            if len(locs) > 1:
                for l in locs:
                    g.setdefault(l, k)
                k += 1
        self.groups = g
        # where each group still matters: inside the frame common to its locations, while one of them is ahead
        self.gpre = {}
        for gi in set(g.values()):
            ps = [locpath(l) for l, x in g.items() if x == gi]
            d = 0
            while all(len(p) > d + 1 for p in ps) and len({p[d] for p in ps}) == 1 and len({p[d + 1][0] for p in ps}) == 1:
                d += 1
            pre = ps[0][:d]
            self.gpre[gi] = (pre, ps[0][d][0], self.ahead(ps[0][d][0], frozenset(p[d][1] for p in ps)))
        return bool(g)

    def ahead(self, bid, targets):
        b = next(c.body for c in self.ctxs.values() if c.body.id == bid)
        pred = defaultdict(set)
        for i, ss in enumerate(self.info(b).succ):
            for j in ss:
                pred[j].add(i)
        seen = set(targets)
        st = list(targets)
        while st:
            for j in pred[st.pop()]:
                if j not in seen:
                    seen.add(j)
                    st.append(j)
        return seen

    def livegroups(self, ctx, bb, fa):
        g = fa.get("#g")
        if not g:
            return fa
        p = locpath(gloc(ctx, bb))
        keep = []
        for x in g:
            pre, body, ok = self.gpre[x[0]]
            d = len(pre)
            if len(p) > d and p[:d] == pre and p[d][0] == body and p[d][1] in ok:
                keep.append(x)
        if len(keep) == len(g):
            return fa
        fa = dict(fa)
        if keep:
            fa["#g"] = tuple(keep)
        else:
            del fa["#g"]
        return fa

    def mkctx(self, parent, bb, body):
        key = (parent, bb, body.id)
        c = self.ctxs.get(key)
        if c is None:
            c = Ctx(parent, bb, body)
            c.id = len(self.ctxs)
            self.ctxs[key] = c
        return c

    def node(self, ctx, bb, key):
        kk = (ctx, bb, key)
        n = self.xn.get(kk)
        if n is None:
            # cap the number of partitions
            ks = self.keycount[(ctx, bb)]
            if len(ks) >= self.cap and key != ():
                self.caphit.add((ctx, bb))
                return self.node(ctx, bb, ())
            ks.add(key)
            n = XNode()
            n.ctx, n.bb, n.key = ctx, bb, key
            n.id = len(self.nodes)
            n.ins = {}
            n.state = None
            n.facts = {}
            n.succ = []
            n.events = []
            n.visits = 0
            n.sticky = set()
            n.queued = False
            n.term = None
            pr = []
            c = ctx
            b = bb
            while c is not None:
                pr.append(self.info(c.body).rpo.get(b, 9999))
                b = c.bb
                c = c.parent
            pr.reverse()
            n.prio = tuple(pr)
            self.xn[kk] = n
            self.nodes.append(n)
        return n

    def push(self, n):
        if not n.queued:
            n.queued = True
            heapq.heappush(self.heap, (n.prio, n.id, n))

    # ---------------------------------------------------------------- keys
    def shape(self, v, d=0):
        if v.op == "agg":
            if self.enums.by.get(v.a[0]):
                sub = ()
                if d < 2:
                    sub = tuple(self.shape(x, d + 1) for x in v.a[3])
                    if not any(sub):
                        sub = ()
                return (v.a[1], sub)
            return None
        if v.op == "k" and isinstance(v.a[0], bool):
            return v.a[0]
        if self.unroll and v.op == "call" and v.a[0] == "iter" and v.a[1][0].op == "arr":
            return ("iter", len(v.a[1][0].a[0]))
        if v.op == "tup" and d < 2 and v.a[0]:
            sub = tuple(self.shape(x, d + 1) for x in v.a[0])
            return sub if any(x is not None for x in sub) else None
        return None

    def keyof(self, ctx, bb, st, fa):
        out = []
        c = ctx
        b = bb
        first = True
        while c is not None:
            inf = self.info(c.body)
            live = inf.live[b]
            for l in sorted(live):
                if l in inf.flags:
                    continue
                if not first and c is not ctx and l == self._pending(c, b):
                    continue
                v = st.get(("L", c, l))
                if v is not None:
                    s = self.shape(v)
                    if s is not None:
                        out.append((c.id, l, s))
            # parent continuation
            b2 = None
            if c.parent is not None:
                b2 = self.cont(c)
                if b2 is None:
                    break
            b = b2
            c = c.parent
            first = False
        g = fa.get("#g")
        if g:
            out.append(("#g", tuple(x[:2] for x in g)))
        x = st.get(PART)
        if x is not None and x.op == "k":
            out.append(("X", x.a[0]))
        return tuple(out)

    def _pending(self, c, b):
        return -1

    def cont(self, c):
        t = c.parent.body.bb[c.bb]["t"]
        if t["t"] == "syn":
            return t["to"][0]
        return t["to"]

    # ---------------------------------------------------------------- merge
    def merge(self, n):
        ins = list(n.ins.values())
        if len(ins) == 1 and not n.sticky:
            st, fa = ins[0]
            st = dict(st)
            fa = dict(fa)
            n.phis = {}
            return st, fa
        roots = set(ins[0][0])
        for st, _ in ins[1:]:
            roots |= set(st)
        out = {}
        n.phis = {}
        for r in roots:
            vals = []
            for st, _ in ins:
                v = st.get(r)
                if v is None:
                    if r[0] == "M":
                        v = r[1]
                    elif r[0] == "L" or r[0] == "H":
                        continue
                    else:
                        v = mk("root", r)
                vals.append(v)
            out[r] = self.join(n, (r,), vals)
        keys = set(ins[0][1])
        for _, fa in ins[1:]:
            keys &= set(fa)
        fo = {}
        for k in keys:
            if k == "#g":
                v0 = ins[0][1]["#g"]
                if all(fa["#g"] == v0 for _, fa in ins):
                    fo[k] = v0
                continue
            v = ins[0][1][k]
            if all(fa[k] == v for _, fa in ins):
                fo[k] = v
            else:
                # merge value sets
                vs = [fa[k] for _, fa in ins]
                m = merge_fact(vs)
                if m is not None:
                    fo[k] = m
        tag = ("phi", n.id)
        return out, killtag(fo, tag)

    def join(self, n, loc, vals):
        v0 = vals[0]
        same = True
        for v in vals:
            if v is not v0:
                same = False
                break
        if same and loc not in n.sticky:
            return v0
        ph = mk("phi", n.id, loc)
        if loc not in n.sticky:
            rest = {v for v in vals if v is not ph}
            if len(rest) == 1:
                return rest.pop()
            a = next(iter(rest))
            if len(loc) < 8:
                if a.op == "agg" and all(v.op == "agg" and v.a[0] == a.a[0] and v.a[1] == a.a[1] and v.a[2] == a.a[2] for v in rest) and len(a.a[3]):
                    rr = [v for v in vals if v is not ph]
                    return Agg(a.a[0], a.a[1], a.a[2], [self.join(n, loc + (("f", nm),), [v.a[3][i] for v in rr]) for i, nm in enumerate(a.a[2])])
                if a.op == "tup" and all(v.op == "tup" and len(v.a[0]) == len(a.a[0]) for v in rest) and a.a[0]:
                    rr = [v for v in vals if v is not ph]
                    return mk("tup", tuple(self.join(n, loc + (("f", str(i)),), [v.a[0][i] for v in rr]) for i in range(len(a.a[0]))))
                if a.op == "clo" and all(v.op == "clo" and v.a[0] == a.a[0] and len(v.a[1]) == len(a.a[1]) for v in rest) and a.a[1]:
                    rr = [v for v in vals if v is not ph]
                    return mk("clo", a.a[0], tuple(self.join(n, loc + (("f", str(i)),), [v.a[1][i] for v in rr]) for i in range(len(a.a[1]))))
                j = self.join_upd(n, loc, [v for v in vals if v is not ph])
                if j is not None:
                    return j
            if n.visits > 40:
                n.sticky.add(loc)
        n.phis[loc] = vals
        self.phi_in[ph] = vals
        return ph

    def join_upd(self, n, loc, vals):
        """records that differ from a common base in some fields only: join field by field"""
        if not any(v.op == "upd" for v in vals):
            return None
        bases = set()
        paths = []
        for v in vals:
            while v.op == "upd" and v.a[1][0] in ("f", "vf"):
                if v.a[1] not in paths:
                    paths.append(v.a[1])
                v = v.a[0]
            bases.add(v)
        if len(bases) != 1 or len(paths) > 12:
            return None
        r = bases.pop()
        if r.op == "phi" and r.a[0] == n.id:
            return None
        for q in sorted(paths):
            r = setp(r, (q,), self.join(n, loc + (q,), [proj(v, q) for v in vals]))
        return r

    # ---------------------------------------------------------------- processing
    def process(self, n):
        if not n.ins:
            # unreachable now
            self.set_succ(n, [])
            n.state = None
            return
        st, fa = self.merge(n)
        n.visits += 1
        if n.state is not None and n.state == st and n.facts == fa:
            return
        if n.visits > 400:
            raise facts.ToolError(f"no fixpoint at {n} in {self.entry.path}")
        n.state = st
        n.facts = fa
        ex = Exec(self, n, dict(st), dict(fa))
        outs = ex.run()
        n.events = ex.events
        self.set_succ(n, outs)

    def set_succ(self, n, outs):
        old = n.succ
        new = []
        # group by edge index
        seen = set()
        for i, (ctx, bb, st, fa, lab) in enumerate(outs):
            st = self.prune(ctx, bb, st)
            fa = self.livegroups(ctx, bb, fa)
            key = self.keyof(ctx, bb, st, fa)
            m = self.node(ctx, bb, key)
            ek = (n, i)
            prev = m.ins.get(ek)
            if prev is None or prev[0] != st or prev[1] != fa:
                m.ins[ek] = (st, fa)
                self.push(m)
            new.append((m, lab))
            seen.add((m, ek))
        for i, (m, lab) in enumerate(old):
            ek = (n, i)
            if (m, ek) not in seen and ek in m.ins:
                del m.ins[ek]
                self.push(m)
        n.succ = new

    def prune(self, ctx, bb, st):
        keep = {}
        live = {}
        c = ctx
        b = bb
        while c is not None:
            inf = self.info(c.body)
            live[c] = inf.live[b] | inf.addr if b is not None else inf.addr
            if c.parent is not None:
                b = self.cont(c)
            c = c.parent
        for r, v in st.items():
            if r[0] == "L":
                l = live.get(r[1])
                if l is None or r[2] not in l:
                    continue
            keep[r] = v
        return keep


def killtag(fa, tag):
    """forget what is known about terms computed anew"""
    out = {k: v for k, v in fa.items() if k == "#g" or tag not in k.tags}
    g = out.get("#g")
    if g and any(tag in x[2] for x in g):
        g = tuple(x for x in g if tag not in x[2])
        if g:
            out["#g"] = g
        else:
            del out["#g"]
    return out


def locpath(loc):
    """outermost to innermost (body id, block)"""
    frames, bb = loc
    out = []
    blk = bb
    for cbb, bid in frames:
        out.append((bid, blk))
        blk = cbb
    out.reverse()
    return out


def merge_fact(vs):
    """facts are ('eq', v) or ('ne', frozenset); weaken to a common 'ne' when possible"""
    ne = None
    for v in vs:
        if v[0] == "eq":
            return None
        ne = v[1] if ne is None else ne & v[1]
    return ("ne", ne) if ne else None


class Exec:
    def __init__(self, eng, n, st, fa):
        self.e = eng
        self.n = n
        self.ctx = n.ctx
        self.body = n.ctx.body
        self.st = st
        self.fa = fa
        self.events = []
        self.ncall = 0

    # ---- memory
    def read(self, root, path=()):
        v = self.st.get(root)
        if v is None:
            if root[0] == "M":
                v = root[1]
            elif root[0] == "P":
                v = self.promoted(root[1])
            elif root[0] == "S":
                v = mk("static", root[1])
            else:
                v = mk("undef")
        for p in path:
            v = proj(v, p)
        return v

    def write(self, root, path, val, span=None, quiet=False):
        old = self.st.get(root)
        if old is None:
            old = self.read(root) if path else None
        if root[0] == "M" and not path and root not in self.st:
            # a number read through the pointer earlier keeps its value
            for k in [k for k, v in self.st.items() if v is root[1] and k[0] == "L" and k[1] is not None and k[1].body.lty(k[2]).k == "prim"]:
                self.st[k] = mk("old", root[1])
        if root[0] == "M" and not quiet:
            before = self.read(root, path)
            self.events.append(Event("write", "write", args=(mk("ref", root, tuple(path), True), val, before), ctx=self.ctx, span=span))
            self.weak_into(root[1])
        elif root[0] == "S" and not quiet:
            self.events.append(Event("write", "write", args=(mk("ref", root, tuple(path), True), val, self.read(root, path)), ctx=self.ctx, span=span))
        elif root[0] in ("L", "H") and not quiet and any(x[0] == "idx" for x in path):
            self.events.append(Event("lwrite", "write", args=(mk("ref", root, tuple(path), True), val), ctx=self.ctx, span=span))
        self.st[root] = setp(old, tuple(path), val) if path else val

    def weak_into(self, t):
        """a write through opaque pointer t: locations t was derived from change in an unknown way"""
        for x in subterms(t):
            if x.op == "ref" and x.a[2]:
                r, p = x.a[0], x.a[1]
                cur = self.read(r, p)
                nv = mk("wupd", cur if cur.op != "wupd" else cur.a[0], mk("tid", t))
                o = self.st.get(r)
                if o is None:
                    o = self.read(r)
                self.st[r] = setp(o, p, nv) if p else nv

    def mkref(self, root, path, mut):
        if root[0] == "M" and not path:
            return root[1]
        return mk("ref", root, tuple(path), bool(mut))

    def target(self, ptr):
        """(root, path) a pointer value denotes"""
        if ptr.op == "ref":
            return ptr.a[0], ptr.a[1]
        return ("M", ptr), ()

    def resolve(self, place):
        root = ("L", self.ctx, place[0])
        path = []
        variant = None
        ty = None
        try:
            ty = self.body.lty(place[0])
        except Exception:
            ty = None
        for e in place[1:]:
            if e == "*":
                v = self.read(root, path)
                root, p = self.target(v)
                path = list(p)
                variant = None
                ty = ty.a[0] if ty is not None and ty.a and ty.k in ("ref", "ptr") else (ty.a[0] if ty is not None and ty.k == "adt" and ty.a else None)
            elif isinstance(e, dict):
                if "f" in e:
                    if ty is not None and ty.k == "adt" and ty.adt in ("alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull"):
                        pass  # Box internals: pointer identity
                    elif variant is not None:
                        path.append(("vf", variant, e["n"]))
                    else:
                        path.append(("f", e["n"]))
                    variant = None
                    ty = self.body.types[e["t"]]
                elif "d" in e:
                    variant = e["d"]
                elif "i" in e:
                    iv = self.read(("L", self.ctx, e["i"]))
                    path.append(("idx", iv))
                    ty = ty.a[0] if ty is not None and ty.a else None
                elif "ci" in e:
                    path.append(("idx", K(e["ci"]) if not e.get("fe") else mk("fromend", e["ci"])))
                    ty = ty.a[0] if ty is not None and ty.a else None
                elif "ss" in e:
                    path.append(("sub", e["ss"], (e["to"], e.get("fe"))))
        self.last_ty = ty
        return root, tuple(path)

    def operand(self, o):
        if "c" in o or "m" in o:
            r, p = self.resolve(o.get("c") or o.get("m"))
            return self.read(r, p)
        if "k" in o:
            return self.const(o["k"])
        return K(False) if "rt" in o else mk("undef")

    def const(self, k):
        if "fn" in k:
            f = k["fn"]
            r = f.get("r") or {}
            key = r.get("key") or f["id"]
            FN[key] = f
            return mk("fn", key)
        ty = self.body.types[k["ty"]] if "ty" in k else None
        if "int" in k:
            if ty is not None and ty.s == "bool":
                return TRUE if k["int"] == "1" else FALSE
            if ty is not None and ty.s == "char":
                return mk("k", ("char", int(k["int"])))
            if ty is not None and k["int"] == "0" and ty.k == "adt" and ty.adt == "core::option::Option" and ty.a and (ty.a[0].k == "ref" or ty.a[0].adt == "alloc::boxed::Box"):
                return Agg("core::option::Option", "None", (), ())
            return K(int(k["int"]))
        if "float" in k:
            return mk("k", ("f", k["float"]))
        if "str" in k:
            return mk("k", k["str"])
        if "static" in k:
            return mk("ref", ("S", k["static"]), (), False)
        if "promoted" in k:
            if k["promoted"] in self.e.prog.bodies:
                return self.promoted(k["promoted"])
            return mk("cdef", k["promoted"])
        if ty is not None and ty.k == "fndef":
            return mk("fnty", ty.s)
        if "cdef" in k:
            return self.const_item(k)
        if ty is not None and ty.k == "tuple" and not ty.a:
            return UNIT
        if ty is not None and ty.k == "closure" :
            return mk("clo", ty.id, ())
        return mk("zst", ty.s if ty is not None else "?")

    def const_item(self, k):
        b = self.e.prog.bodies.get(k.get("cid"))
        if b is not None and len(b.bb) <= 2:
            try:
                v = self.straight(b, ("CI", b.id))
                if v is not None:
                    return v
            except Exception:
                pass
        return mk("cdef", k["cdef"])

    def promoted(self, pid):
        b = self.e.prog.bodies[pid]
        v = self.straight(b, ("P", pid))
        return v if v is not None else mk("cdef", pid)

    def straight(self, b, tag):
        """evaluate a straight-line constant body; its locals live in pseudo memory"""
        c = self.e.mkctx(None, tag, b)
        sub = Exec(self.e, self.n, self.st, self.fa)
        sub.ctx = c
        sub.body = b
        i = 0
        for _ in range(20):
            bb = b.bb[i]
            for p, r, sp in bb["s"]:
                v = sub.rvalue(r)
                root, path = sub.resolve(p)
                # rename local roots to constant memory roots
                sub.st[root] = setp(sub.read(root), path, v) if path else v
            t = bb["t"]
            if t["t"] == "return":
                v = self.st.get(("L", c, 0))
                # locals of constants must survive pruning: move them to C roots
                for r in [r for r in self.st if r[0] == "L" and r[1] is c]:
                    self.st[("C", tag, r[2])] = self.st.pop(r)
                return self.rename(v, c, tag)
            if t["t"] == "goto" or t["t"] == "assert":
                i = t["to"]
            elif t["t"] == "call" and t.get("to") is not None and (f := self.inclusive(b, t)) is not None:
                root, path = sub.resolve(t["dest"])
                if path:
                    return None
                sub.st[root] = Agg("core::ops::range::RangeInclusive", "RangeInclusive", ("start", "end", "exhausted"), [sub.operand(f[0]), sub.operand(f[1]), FALSE])
                i = t["to"]
            else:
                return None
        return None

    def inclusive(self, b, t):
        """operands of a..=b"""
        f = (t.get("f") or {}).get("k", {}).get("fn") if isinstance(t.get("f"), dict) else None
        if f is not None and re.search(r"RangeInclusive::<\w+>::new$|RangeInclusive.*::new$", f["path"]) and len(t.get("args") or ()) == 2:
            return t["args"]
        return None

    def rename(self, v, c, tag):
        if v.op == "ref" and v.a[0][0] == "L" and v.a[0][1] is c:
            inner = self.st.get(("C", tag, v.a[0][2]))
            if inner is not None:
                inner = self.rename(inner, c, tag)
                # constant memory: a reference to constant content is represented by the content itself
                for p in v.a[1]:
                    inner = proj(inner, p)
                return mk("cref", inner)
        if v.op in ("agg",):
            return Agg(v.a[0], v.a[1], v.a[2], [self.rename(x, c, tag) for x in v.a[3]])
        if v.op in ("tup", "arr"):
            return mk(v.op, tuple(self.rename(x, c, tag) for x in v.a[0]))
        return v

    # ---- snapshots
    def snap(self, v, d=0):
        """replace pointers by the current contents of what they point to"""
        if d > 6:
            return v
        if v.op == "ref":
            return self.snap(self.read(v.a[0], v.a[1]), d + 1)
        if v.op == "cref":
            return self.snap(v.a[0], d + 1)
        if v.op == "agg" and v.a[3]:
            xs = tuple(self.snap(x, d + 1) for x in v.a[3])
            return v if xs == v.a[3] else Agg(v.a[0], v.a[1], v.a[2], xs)
        if v.op in ("tup", "arr") and v.a[0]:
            xs = tuple(self.snap(x, d + 1) for x in v.a[0])
            return v if xs == v.a[0] else mk(v.op, xs)
        if v.op == "clo" and v.a[1]:
            xs = tuple(self.snap(x, d + 1) for x in v.a[1])
            return v if xs == v.a[1] else mk("clo", v.a[0], xs)
        if v.op == "upd" and len(v.a) == 3 and isinstance(v.a[2], Term):
            x = self.snap(v.a[2], d + 1)
            return v if x is v.a[2] else mk("upd", v.a[0], v.a[1], x)
        m = self.st.get(("M", v))
        if m is not None and m is not v:
            return self.snap(m, d + 1)
        return v

    def deref_const(self, v):
        return v

    # ---- rvalues
    def rvalue(self, r):
        k = r["r"]
        if k == "use":
            return self.operand(r["o"][0])
        if k in ("ref", "rawptr"):
            root, path = self.resolve(r["p"])
            return self.mkref(root, path, r["mut"])
        if k == "bin":
            return self.binop(r["op"], self.operand(r["o"][0]), self.operand(r["o"][1]), r)
        if k == "un":
            x = self.operand(r["o"][0])
            if r["op"] == "PtrMetadata":
                return mk("len", self.snap(x))
            if r["op"] == "Not":
                return neg(x)
            return mk("un", r["op"], x)
        if k == "cast":
            x = self.operand(r["o"][0])
            ck = r["ck"]
            if ck.startswith("PointerCoercion") or ck.startswith("PtrToPtr") or ck.startswith("Transmute") or ck.startswith("BoxDeref") or "Ptr" in ck:
                return x
            ts = self.body.types[r["t"]].s
            ot = self.body.types[r["ot"]].s if "ot" in r else "?"
            if x.op == "k" and isinstance(x.a[0], int) and not isinstance(x.a[0], bool) and ck == "IntToInt":
                return x
            if x.op == "discr":
                return x
            CASTFROM[mk("cast", ts, x)] = ot
            return mk("cast", ts, x)
        if k == "discr":
            root, path = self.resolve(r["p"])
            ty = self.last_ty
            v = self.read(root, path)
            return self.discr(v, ty)
        if k == "agg":
            vals = [self.operand(o) for o in r["o"]]
            ak = r["ak"]
            if ak == "adt":
                if r["adt"] in ("core::ptr::unique::Unique", "core::ptr::non_null::NonNull") and vals:
                    return vals[0]
                return Agg(r["adt"], r["v"], r["fn"], vals)
            if ak == "tuple":
                return mk("tup", tuple(vals))
            if ak == "array":
                return mk("arr", tuple(vals))
            if ak == "closure":
                return mk("clo", r["id"], tuple(vals))
            # raw pointers from parts
            return vals[0] if vals else mk("undef")
        if k == "repeat":
            return mk("rep", self.operand(r["o"][0]), r.get("n", "?"))
        if k == "setdiscr":
            return mk("undef")
        return mk("undef")

    def discr(self, v, ty):
        while v.op == "upd":
            v = v.a[0]
        if v.op == "agg":
            d = self.e.enums.discr(v.a[0], v.a[1])
            if d is not None:
                return K(d)
        adt = ty.adt if ty is not None and ty.k == "adt" else None
        if v.op == "phi":
            pass
        return mk("discr", v, adt)

    def binop(self, op, a, b, r=None):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("AddUnchecked",):
            base = "Add"
        fl = False
        v = None
        if r is not None:
            v = self.opty(r["o"][0]) or self.opty(r["o"][1])
            fl = v in ("f32", "f64")
        t = arith(base, a, b, fl)
        if op.endswith("WithOverflow"):
            return mk("ovf", t)
        return t

    def opty(self, o):
        if "k" in o:
            return self.body.types[o["k"]["ty"]].s if "ty" in o["k"] else None
        p = o.get("c") or o.get("m")
        if p is None:
            return None
        self.resolve(p)
        return self.last_ty.s if self.last_ty is not None else None

    # ---- main
    def run(self):
        bb = self.body.bb[self.n.bb]
        for p, r, sp in bb["s"]:
            if r["r"] == "push":
                v = mk("push", self.operand(r["o"][0]), self.operand(r["o"][1]))
                self.events.append(Event("elem", "push", args=(self.operand(r["o"][0]), self.snap(self.operand(r["o"][1]))), ctx=self.ctx, span=sp))
            else:
                v = self.rvalue(r)
            root, path = self.resolve(p)
            self.write(root, path, v, sp)
        t = bb["t"]
        k = t["t"]
        self.span = bb.get("sp", "")
        if k == "goto":
            return [(self.ctx, t["to"], self.st, self.fa, None)]
        if k == "return":
            return self.do_return()
        if k == "drop":
            ty = self.body.types[t["ty"]].s if "ty" in t else ""
            root, path = self.resolve(t["p"])
            if DROP_EV.search(ty):
                self.events.append(Event("drop", "drop", path=ty, args=(self.snap(self.read(root, path)),), ctx=self.ctx, span=self.span))
            return [(self.ctx, t["to"], self.st, self.fa, None)]
        if k == "assert":
            c = self.operand(t["o"])
            kv = self.known_bool(c)
            if kv is not None and kv == t["exp"]:
                return [(self.ctx, t["to"], self.st, self.fa, None)]
            self.events.append(Event("assert", t["kind"], path=t.get("op"), args=tuple([c] + [self.operand(o) for o in t.get("ops", ())]), ctx=self.ctx, span=self.span))
            return [(self.ctx, t["to"], self.st, self.fa, None)]
        if k == "switch":
            return self.do_switch(t)
        if k == "call":
            return self.do_call(t)
        if k == "syn":
            return self.do_syn(t)
        return []

    def known_bool(self, c):
        c, flip = strip_not(c)
        if c.op == "k" and isinstance(c.a[0], bool):
            return c.a[0] != flip
        f = self.fa.get(c)
        if f and f[0] == "eq":
            return bool(f[1]) != flip
        return None

    def do_switch(self, t):
        v = self.operand(t["o"])
        isbool = self.body.types[t["ty"]].s == "bool" if "ty" in t else False
        flip = False
        if isbool:
            v, flip = strip_not(v)
            # comparison of a discriminant with a constant
            if v.op == "bin" and v.a[0] == "Eq" and v.a[1].op == "discr" and v.a[2].op == "k":
                return self.switch_discr_eq(t, v, flip)
        cands = [(int(x), b) for x, b in t["v"]]
        els = t["else"]
        if isbool:
            m = {x: b for x, b in cands}
            tb = m.get(1, els)
            fb = m.get(0, els)
            if flip:
                tb, fb = fb, tb
            kv = self.known_bool(v)
            if kv is not None:
                return [(self.ctx, tb if kv else fb, self.st, self.fa, (v, kv))] if v.op != "k" else [(self.ctx, tb if kv else fb, self.st, self.fa, None)]
            self.log(v)
            out = []
            for val, b in ((True, tb), (False, fb)):
                if self.is_unreach(b):
                    continue
                fa = dict(self.fa)
                fa[v] = ("eq", val)
                st = dict(self.st)
                self.refine(st, fa, v, val)
                self.setgroup(fa, val, v)
                out.append((self.ctx, b, st, fa, (v, val)))
            return out
        if v.op == "k":
            x = v.a[0]
            if isinstance(x, tuple) and x[0] == "char":
                x = x[1]
            for c, b in cands:
                if c == x:
                    return [(self.ctx, b, self.st, self.fa, None)]
            return [(self.ctx, els, self.st, self.fa, None)]
        f = self.fa.get(v)
        if f and f[0] == "eq":
            for c, b in cands:
                if c == f[1]:
                    return [(self.ctx, b, self.st, self.fa, (v, f[1]))]
            return [(self.ctx, els, self.st, self.fa, (v, f[1]))]
        excl = f[1] if f else frozenset()
        self.log(v)
        out = []
        # split every explicit value; else gets ne (or the single remaining variant)
        allv = self.variants(v)
        for c, b in cands:
            if c in excl or self.is_unreach(b):
                continue
            if allv is not None and c not in allv:
                continue
            fa = dict(self.fa)
            fa[v] = ("eq", c)
            st = dict(self.st)
            self.refine(st, fa, v, c)
            self.setgroup(fa, c, v)
            out.append((self.ctx, b, st, fa, (v, self.label(v, c))))
        if not self.is_unreach(els):
            ne = excl | frozenset(c for c, _ in cands)
            if allv is not None:
                rest = [x for x in allv if x not in ne]
                for x in rest:
                    fa = dict(self.fa)
                    fa[v] = ("eq", x)
                    st = dict(self.st)
                    self.refine(st, fa, v, x)
                    self.setgroup(fa, x, v)
                    out.append((self.ctx, els, st, fa, (v, self.label(v, x))))
            else:
                fa = dict(self.fa)
                fa[v] = ("ne", ne)
                self.setgroup(fa, "else", v)
                out.append((self.ctx, els, dict(self.st), fa, (v, ("ne", tuple(sorted(ne))))))
        if len(out) == 1:
            o = out[0]
            out = [(o[0], o[1], o[2], o[3], o[4])]
        return out

    def switch_discr_eq(self, t, v, flip):
        d, c = v.a[1], v.a[2].a[0]
        m = {int(x): b for x, b in t["v"]}
        tb, fb = m.get(1, t["else"]), m.get(0, t["else"])
        if flip:
            tb, fb = fb, tb
        f = self.fa.get(d)
        allv = self.variants(d)
        out = []
        self.log(d)
        if not (f and ((f[0] == "eq" and f[1] != c) or (f[0] == "ne" and c in f[1]))):
            fa = dict(self.fa)
            fa[d] = ("eq", c)
            st = dict(self.st)
            self.refine(st, fa, d, c)
            self.setgroup(fa, c, d)
            out.append((self.ctx, tb, st, fa, (d, self.label(d, c))))
        if not (f and f[0] == "eq" and f[1] == c):
            ne = (f[1] if f and f[0] == "ne" else frozenset()) | {c}
            if f and f[0] == "eq":
                rest = [f[1]]
            else:
                rest = [x for x in allv if x not in ne] if allv is not None else None
            if rest is not None:
                for x in rest:
                    fa = dict(self.fa)
                    fa[d] = ("eq", x)
                    st = dict(self.st)
                    self.refine(st, fa, d, x)
                    self.setgroup(fa, x, d)
                    out.append((self.ctx, fb, st, fa, (d, self.label(d, x))))
            else:
                fa = dict(self.fa)
                fa[d] = ("ne", ne)
                out.append((self.ctx, fb, dict(self.st), fa, (d, ("ne", tuple(sorted(ne))))))
        return out

    def log(self, v):
        self.e.condlog[v].add(gloc(self.ctx, self.n.bb))

    def setgroup(self, fa, val, cond):
        g = self.e.groups.get(gloc(self.ctx, self.n.bb))
        if g is not None:
            cur = {x[0]: x for x in fa.get("#g", ())}
            cur[g] = (g, val, cond.tags)
            fa["#g"] = tuple(sorted(cur.values(), key=lambda x: (x[0], str(x[1]))))

    def label(self, v, c):
        if v.op == "discr" and v.a[1]:
            n = self.e.enums.variant(v.a[1], c)
            return n if n is not None else c
        return c

    def variants(self, v):
        if v.op == "discr" and v.a[1]:
            e = self.e.enums.by.get(v.a[1])
            if e:
                return list(e[1]) if e[1] else list(range(len(e[0])))
        return None

    def is_unreach(self, b):
        bb = self.body.bb[b]
        return bb["t"]["t"] == "unreachable" and not bb["s"]

    def refine(self, st, fa, v, val):
        """what else the edge tells us (two-variant discriminants of phis are left symbolic)"""
        return

    # ---- return
    def do_return(self):
        rv = self.read(("L", self.ctx, 0))
        c = self.ctx
        if c.parent is None:
            self.events.append(Event("ret", "return", args=(self.snap(rv), rv), refs=tuple(self.snap(p) for p in self.e.params), mem=dict(self.st), ctx=c, span=self.span))
            self.n.term = "ret"
            return []
        pt = c.parent.body.bb[c.bb]["t"]
        if pt["t"] == "syn":
            # closure invoked from a synthetic loop: continue there
            st = dict(self.st)
            st[("L", c.parent, pt["dest"])] = rv
            return [(c.parent, pt["to"][0], st, self.fa, None)]
        if pt["to"] is None:
            return []
        sub = Exec(self.e, self.n, self.st, self.fa)
        sub.ctx = c.parent
        sub.body = c.parent.body
        sub.events = self.events
        root, path = sub.resolve(pt["dest"])
        sub.write(root, path, rv, self.span)
        return [(c.parent, pt["to"], sub.st, self.fa, None)]

    # ---- calls
    def do_call(self, t):
        e = self.e
        fo = t["f"]
        args = [self.operand(a) for a in t["args"]]
        f = None
        if "k" in fo and "fn" in fo["k"]:
            f = fo["k"]["fn"]
        else:
            v = self.operand(fo)
            if v.op == "cref":
                v = v.a[0]
            if v.op == "fn":
                f = FN.get(v.a[0])
            elif v.op == "clo":
                f = None
            if f is None:
                return self.opaque(t, {"path": "fnptr", "id": "fnptr", "a": []}, args, "fnptr", [v] + args)
        name = callee_name(f)
        # models first
        m = e.models.get(strip_generics(f["path"]))
        if m is None:
            m = e.models.get(name)
        if m is not None:
            r = m(self, t, f, args)
            if r is not NotImplemented:
                return r
        return self.call_fn(t, f, args, name)

    def find_body(self, f):
        p = self.e.prog
        r = f.get("r")
        if f.get("trait") == "core::iter::traits::iterator::Iterator" and f.get("dk") and f["m"] not in ("size_hint", "next") and f["dk"] in p.bodies:
            return p.bodies[f["dk"]]
        if r:
            if r["kind"] == "item":
                return p.bodies.get(r.get("key")) or p.bodies.get(r["id"])
            if r.get("ckey"):
                return p.bodies.get(r["ckey"])
            return None
        return p.bodies.get(f["id"])

    def call_fn(self, t, f, args, name):
        e = self.e
        body = self.find_body(f)
        tr = f.get("trait") or ""
        isfn = tr in ("core::ops::function::Fn", "core::ops::function::FnMut", "core::ops::function::FnOnce")
        if body is None and isfn and args:
            # call through a function item / function pointer value
            fv = args[0]
            if fv.op in ("ref",):
                fv = self.read(fv.a[0], fv.a[1])
            if fv.op == "cref":
                fv = fv.a[0]
            ft = self.body.types[f["a"][0]] if f.get("a") else None
            if fv.op == "clo":
                b2 = e.prog.bodies.get(fv.a[0]) or next((b for b in e.prog.bodies.values() if b.o.get("def") == fv.a[0]), None)
                if b2 is not None:
                    return self.enter(t, b2, args, spread=True)
            ftt = ft.strip() if ft is not None else None
            if ftt is not None and ftt.k == "fndef":
                if ftt.ctor:
                    c = ftt.ctor
                    tup = args[1]
                    vals = tup.a[0] if tup.op == "tup" else [mk("f", tup, str(i)) for i in range(len(c[3]))]
                    return self.finish(t, Agg(c[0], c[1], c[3], list(vals)))
            if fv.op == "fn":
                ff = FN.get(fv.a[0])
                if ff is not None and args[1].op == "tup":
                    nm = callee_name(ff)
                    m = e.models.get(nm)
                    a2 = list(args[1].a[0])
                    if m is not None:
                        r = m(self, t, ff, a2)
                        if r is not NotImplemented:
                            return r
                    return self.call_fn(t, ff, a2, nm)
        if body is not None and body.bb and not e.opaque(body, f):
            # recursion / depth
            n = 0
            for c in self.ctx.frames():
                if c.body is body:
                    n += 1
            if n < e.max_recur and self.ctx.depth < e.maxdepth:
                spread = isfn and (body.kind == "closure" or body.o.get("closure"))
                return self.enter(t, body, args, spread)
            return self.opaque(t, f, args, name)
        if e.devirt is not None and f.get("trait") and (not f.get("r") or f["r"].get("kind") == "virtual"):
            bs = e.devirt(self, f, args)
            if bs and sum(1 for c in self.ctx.frames() if c.body is bs) < e.max_recur:
                return self.enter(t, bs, args, False)
        return self.opaque(t, f, args, name)

    def enter(self, t, body, args, spread):
        e = self.e
        c = e.mkctx(self.ctx, self.n.bb, body)
        st = self.st
        if spread:
            tup = args[1] if len(args) > 1 else UNIT
            n = body.argc - 1
            vals = list(tup.a[0]) if tup.op == "tup" and len(tup.a[0]) == n else [proj(tup, ("f", str(i))) for i in range(n)]
            selfv = args[0]
            # by-value call of a closure whose body takes a reference
            try:
                wants_ref = body.lty(1).k == "ref"
            except Exception:
                wants_ref = False
            if wants_ref and selfv.op == "clo":
                h = ("H", c, "self")
                st[h] = selfv
                selfv = mk("ref", h, (), True)
            elif not wants_ref and selfv.op == "ref":
                selfv = self.read(selfv.a[0], selfv.a[1])
            args = [selfv] + vals
        for i in range(1, body.argc + 1):
            st[("L", c, i)] = args[i - 1] if i - 1 < len(args) else mk("undef")
        return [(c, 0, st, self.fa, None)]

    def finish(self, t, val, lab=None):
        if t["t"] == "syn":
            self.st[("L", self.ctx, t["dest"])] = val
            return [(self.ctx, t["to"][0], self.st, self.fa, lab)]
        root, path = self.resolve(t["dest"])
        self.write(root, path, val, self.span)
        if t["to"] is None:
            return []
        return [(self.ctx, t["to"], self.st, self.fa, lab)]

    def fork(self, t, v, adt, outs):
        """continue once per variant of v: outs is [(variant, result term)]"""
        d = mk("discr", v, adt)
        known = self.fa.get(d)
        self.log(d)
        res = []
        st0, fa0 = self.st, self.fa
        for var, val in outs:
            i = self.e.enums.discr(adt, var)
            if i is None:
                i = [o[0] for o in outs].index(var)
            if known and (known[0] == "eq" and known[1] != i or known[0] == "ne" and i in known[1]):
                continue
            self.st = dict(st0)
            self.fa = dict(fa0)
            self.fa[d] = ("eq", i)
            self.setgroup(self.fa, i, d)
            res += self.finish(t, val, (d, var))
        self.st, self.fa = st0, fa0
        return res

    def nonce(self):
        return f"{self.ctx.id}.{self.n.bb}"

    def arg_ty(self, t, i):
        try:
            o = t["args"][i]
            if "k" in o:
                return self.body.types[o["k"]["ty"]] if "ty" in o["k"] else None
            self.resolve(o.get("c") or o.get("m"))
            return self.last_ty
        except Exception:
            return None

    def opaque(self, t, f, args, name, evargs=None):
        e = self.e
        snaps = [self.snap(a) for a in args]
        tys = [self.arg_ty(t, i) for i in range(len(t.get("args", ())))]
        mutargs = []
        for i, a in enumerate(args):
            ty = tys[i] if i < len(tys) else None
            if ty is not None and ty.k in ("ref", "ptr") and ty.mut:
                mutargs.append(i)
            elif a.op == "ref" and a.a[2]:
                mutargs.append(i)
        fname = name
        if f.get("r", {}).get("kind") == "virtual":
            fname = name
        pure = is_pure(f, name) and not mutargs
        nonce = None if pure else self.nonce()
        ct = Call(fname, snaps, nonce)
        if nonce is not None:
            tag = ("n", nonce)
            self.fa = killtag(self.fa, tag)
        if t["t"] == "call":
            self.resolve(t["dest"])
            dty = self.last_ty
        else:
            dty = None
        diverges = t["t"] == "call" and t["to"] is None
        ev = Event("panic" if diverges else "call", name, path=f["path"], args=tuple(snaps), refs=tuple(args), ret=ct, span=self.span, ctx=self.ctx, callee=f, dest_ty=dty, argtys=tys)
        self.events.append(ev)
        if diverges:
            return []
        # havoc memory reachable through mutable references
        for i in mutargs:
            self.havoc(args[i], mk("post", ct, i))
        if f.get("r", {}).get("kind") == "virtual" or not pure:
            # closures captured mutable references may be written by the callee
            pass
        clos = []
        for i, a in enumerate(args):
            self.find_closures(a, clos)
        if clos:
            return self.invoke_closures(t, f, name, ct, clos)
        if dty is not None and dty.k == "tuple" and not dty.a:
            return self.finish(t, UNIT)
        return self.finish(t, ct)

    def havoc(self, ptr, val):
        root, path = self.target(ptr)
        if root[0] == "M":
            old = self.st.get(root)
            # drop knowledge of memory reached through fields of it
            for r in list(self.st):
                if r[0] == "M" and r is not root and r[1] is not root[1] and contains(r[1], root[1]):
                    del self.st[r]
            self.st[root] = setp(self.read(root), path, val) if path else val
        else:
            cur = self.read(root, path)
            self.st[root] = setp(self.read(root), path, val) if path else val

    def find_closures(self, v, out, d=0):
        if d > 4:
            return
        if v.op == "clo":
            out.append(v)
        elif v.op == "ref":
            w = self.read(v.a[0], v.a[1])
            if w.op == "clo":
                out.append(v)
            elif w.op in ("agg", "tup"):
                self.find_closures(w, out, d + 1)
        elif v.op in ("agg",):
            for x in v.a[3]:
                self.find_closures(x, out, d + 1)
        elif v.op in ("tup", "arr"):
            for x in v.a[0]:
                self.find_closures(x, out, d + 1)

    def body_of_closure(self, v):
        w = self.read(v.a[0], v.a[1]) if v.op == "ref" else v
        bs = self.e.prog.bodies
        b = bs.get(w.a[0])
        if b is not None and b.bb and b.kind == "closure":
            # closures of generic parents: any monomorphic copy
            rootb = bs.get(b.root)
            if rootb is not None and rootb.gen:
                d = self.e.prog.__dict__.setdefault("_bydef", None)
                if d is None:
                    d = {}
                    for x in bs.values():
                        if x.o.get("def"):
                            d.setdefault(x.o["def"], x)
                    self.e.prog._bydef = d
                return d.get(w.a[0], b)
            return b
        d = self.e.prog.__dict__.get("_bydef")
        if d is None:
            d = {}
            for x in bs.values():
                if x.o.get("def"):
                    d.setdefault(x.o["def"], x)
            self.e.prog._bydef = d
        return d.get(w.a[0])

    def invoke_closures(self, t, f, name, ct, clos):
        """unknown callee receiving closures: it may call any of them any number of times"""
        e = self.e
        cs = []
        for v in clos:
            b = self.body_of_closure(v)
            if b is not None and b.bb and not any(c.body is b for c in self.ctx.frames()):
                cs.append((v, b))
        if not cs:
            return self.finish(t, ct)
        key = ("cbloop", tuple(b.id for _, b in cs))
        sb = SynBody.get(e.prog, key, len(cs), [b for _, b in cs], name)
        c = e.mkctx(self.ctx, self.n.bb, sb)
        st = self.st
        st[("L", c, 1)] = ct
        for i, (v, b) in enumerate(cs):
            if v.op != "ref":
                h = ("H", c, i)
                st[h] = v
                v = mk("ref", h, (), True)
            st[("L", c, 2 + i)] = v
        return [(c, 0, st, self.fa, None)]

    def do_syn(self, t):
        return t["fn"](self, t)


def gloc(ctx, bb):
    """stable identification of a switch location across runs of the same entry"""
    return (tuple((c.bb, c.body.id) for c in ctx.frames()), bb)


FN = {}


class SynBody(Body):
    """synthetic bodies (loops that call closures / drain iterators)"""

    @staticmethod
    def get(prog, key, n, bodies, name):
        d = prog.__dict__.setdefault("_syn", {})
        if key in d:
            return d[key]
        b = SynBody.__new__(SynBody)
        b.o = {}
        b.types = []
        b.id = ("syn",) + key
        b.path = f"<callbacks of {name}>"
        b.kind = "syn"
        b.argc = 1 + n
        b.locals = []
        b.span = ""
        b.root = None
        b.crate = None
        b.gen = []
        b.trait = b.m = None
        # bb0: choose closure i (bb 1+i) or exit (bb n+1)
        def choose(ex, t):
            return [(ex.ctx, x, dict(ex.st), dict(ex.fa), ("nondet", i)) for i, x in enumerate(t["to"])]

        def call_i(i, cb):
            def fn(ex, t):
                selfv = ex.st[("L", ex.ctx, 2 + i)]
                na = cb.argc - 1
                ct = ex.st[("L", ex.ctx, 1)]
                args = [mk("cbarg", ct, i, k) for k in range(na)]
                tag = None
                return ex.enter(t, cb, [selfv, mk("tup", tuple(args))], True)

            return fn

        def fin(ex, t):
            ex.st[("L", ex.ctx, 0)] = ex.st[("L", ex.ctx, 1)]
            return [(ex.ctx, t["to"][0], ex.st, ex.fa, None)]

        bbs = [{"s": [], "t": {"t": "syn", "fn": choose, "to": [1 + i for i in range(n)] + [n + 1], "uses": list(range(1, 2 + n)), "dest": n + 5}}]
        for i, cb in enumerate(bodies):
            bbs.append({"s": [], "t": {"t": "syn", "fn": call_i(i, cb), "to": [0], "dest": n + 5}})
        bbs.append({"s": [], "t": {"t": "syn", "fn": fin, "to": [n + 2], "dest": n + 5}})
        bbs.append({"s": [], "t": {"t": "return"}})
        b.bb = bbs
        d[key] = b
        inf = BInfo(b)
        live = set(range(1, 2 + n))
        inf.live = [set(live) for _ in bbs]
        inf.live[-1] = {0}
        inf.addr = set()
        prog.__dict__.setdefault("_binfo", {})[b.id] = inf
        return b


def drain_body(prog, nx, key, dup=False):
    """fn drain(iter, coll) -> coll : pushes every item of the iterator; nx = callee json of `next`"""
    d = prog.__dict__.setdefault("_syn", {})
    kk = ("drain", key)
    if kk in d:
        return d[kk]
    b = SynBody.__new__(SynBody)
    b.o = {}

    class T0:
        k = "adt"
        adt = "core::option::Option"
        a = []
        s = "Option"
        mut = None
        vs = ["None", "Some"]
        ds = ["0", "1"]
        id = path = trait = auto = n = name = None

        def strip(self):
            return self

    class TR(T0):
        k = "ref"
        adt = None
        mut = True
        s = "&mut I"

    class TU(T0):
        k = "prim"
        adt = None
        s = "isize"

    opt, rf, us = T0(), TR(), TU()
    b.types = [opt, rf, us]
    b.id = ("syn",) + kk
    b.path = "<drain>"
    b.kind = "syn"
    b.argc = 2
    b.locals = [{"t": 2}, {"t": 2}, {"t": 2}, {"t": 1}, {"t": 0}, {"t": 2}, {"t": 2}]
    b.span = ""
    b.root = None
    b.crate = None
    b.gen = []
    b.trait = b.m = None
    b.bb = [
        {"s": [[[0], {"r": "use", "o": [{"c": [2]}]}, ""]], "t": {"t": "goto", "to": 1}},
        {"s": [[[3], {"r": "ref", "mut": True, "p": [1]}, ""]], "t": {"t": "call", "f": {"k": {"fn": nx}}, "args": [{"m": [3]}], "dest": [4], "to": 2, "unw": None}, "sp": ""},
        {"s": [[[5], {"r": "discr", "p": [4]}, ""]], "t": {"t": "switch", "o": {"m": [5]}, "v": [["0", 3], ["1", 4]], "else": 3, "ty": 2}, "sp": ""},
        {"s": [], "t": {"t": "return"}},
        {"s": [[[6], {"r": "use", "o": [{"m": [4, {"d": "Some", "vi": 1}, {"f": 0, "n": "0", "t": 2}]}]}, ""], [[0], {"r": "push", "o": [{"c": [0]}, {"m": [6]}]}, ""]], "t": {"t": "goto", "to": 1}},
    ]
    d[kk] = b
    return b


DROP_EV = re.compile(r"MutexGuard|Sender|Receiver|BufWriter|LineWriter|std::fs::File|Guard<|JoinHandle|flume::IntoIter|mpsc::IntoIter")


def neg(x):
    if x.op == "k" and isinstance(x.a[0], bool):
        return FALSE if x.a[0] else TRUE
    if x.op == "un" and x.a[0] == "Not":
        return x.a[1]
    return mk("un", "Not", x)


def strip_not(c):
    fl = False
    while c.op == "un" and c.a[0] == "Not":
        c = c.a[1]
        fl = not fl
    return c, fl


COMM = {"Add", "Mul", "BitAnd", "BitOr", "BitXor", "Eq", "Ne"}


def arith(op, a, b, fl=False):
    if op == "Ne":
        return neg(arith("Eq", a, b, fl))
    if op == "Gt":
        return arith("Lt", b, a, fl)
    if op == "Ge":
        return arith("Le", b, a, fl)
    if op == "Le" and not fl:
        return neg(arith("Lt", b, a, fl))
    if a.op == "k" and b.op == "k" and not fl:
        x, y = a.a[0], b.a[0]
        if isinstance(x, bool) and isinstance(y, bool) and op in ("Eq", "BitAnd", "BitOr", "BitXor"):
            return K({"Eq": x == y, "BitAnd": x and y, "BitOr": x or y, "BitXor": x != y}[op])
        if isinstance(x, int) and isinstance(y, int) and not isinstance(x, bool) and not isinstance(y, bool):
            if op == "Eq":
                return K(x == y)
            if op == "Lt":
                return K(x < y)
            if op == "Add":
                return K(x + y)
            if op == "Mul":
                return K(x * y)
            if op == "Sub":
                return K(x - y)
            if op == "Shl" and y < 128:
                return K(x << y)
        if type(x) is type(y) and op == "Eq":
            return K(x == y)
    if op == "Eq" and b.op == "k" and isinstance(b.a[0], bool):
        return a if b.a[0] else neg(a)
    if op == "Eq" and a.op == "k" and isinstance(a.a[0], bool):
        return b if a.a[0] else neg(b)
    # constants on the right for commutative operators, otherwise by term id-independent structural order
    if op in COMM:
        if a.op == "k" and b.op != "k":
            a, b = b, a
        elif b.op != "k" and skey(b) < skey(a):
            a, b = b, a
    if op in ("Add", "Sub") and b.op == "k" and b.a[0] == 0 and not fl:
        return a
    return mk("bin", op, a, b)


def skey(t):
    """structural, run-independent ordering key"""
    if t._c is None:
        t._c = pp(t)
    return t._c
