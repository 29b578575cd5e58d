"""Path queries over an explored engine graph, and small helpers shared by the checks."""
import re
from collections import defaultdict
import engine, facts
from engine import Engine, Term, pp, subterms, contains, strip_generics

_eng = {}


def run(prog, body, **kw):
    key = (prog.dir, prog.tag, body.id, tuple(sorted((k, v) for k, v in kw.items() if isinstance(v, (int, str)))), id(kw.get("opaque")), id(kw.get("args")))
    if key not in _eng or kw.get("args") is not None:
        _eng[key] = Engine(prog, body, **kw)
    return _eng[key]


def walk(eng, frm=None, stop_ev=None, stop_edge=None):
    """events and nodes reachable without passing a stop event / stop edge.  frm: None (start) or an Event (just after it)"""
    seen = set()
    out = []
    nodes = set()
    st = []

    def scan(n, i0):
        nodes.add(n)
        for e in n.events[i0:]:
            if stop_ev is not None and stop_ev(e):
                return
            out.append(e)
        for y, lab in n.succ:
            if stop_edge is not None and lab is not None and isinstance(lab[0], Term) and stop_edge(lab):
                continue
            if y not in seen:
                seen.add(y)
                st.append(y)

    if frm is None:
        seen.add(eng.start)
        scan(eng.start, 0)
    else:
        scan(frm.xn, frm.i + 1)
    while st:
        scan(st.pop(), 0)
    return out, nodes


def not_preceded(eng, B, A=None, edge=None):
    """events in B reachable from the entry without first passing an A event (or an edge satisfying `edge`)"""
    evs, _ = walk(eng, None, A, edge)
    # A events that are also B count as preceded by themselves only if listed
    return [e for e in evs if B(e)]


def not_followed(eng, src, B, exits=lambda e: e.kind == "ret", edge=None):
    """exits reachable after event src without passing a B event"""
    evs, _ = walk(eng, src, B, edge)
    return [e for e in evs if exits(e)]


def after(eng, src, stop_ev=None, stop_edge=None):
    return walk(eng, src, stop_ev, stop_edge)[0]


def calls(eng, pat):
    r = re.compile(pat)
    return [e for e in eng.events if e.kind in ("call", "panic") and (r.search(e.name) or (e.path and r.search(e.path)))]


def loc(e):
    return f"{e.ctx.body.path} ({e.span})"


# ------------------------------------------------------------------ whole-program helpers
def callees(prog, b):
    """(callee json, span) of all calls in the body (cleanup blocks excluded)"""
    for bb in b.bb:
        if bb.get("cl"):
            continue
        t = bb["t"]
        if t["t"] == "call":
            fo = t["f"]
            if "k" in fo and "fn" in fo["k"]:
                yield fo["k"]["fn"], bb.get("sp", ""), t
            else:
                yield None, bb.get("sp", ""), t


def fn_consts(b):
    """function items mentioned as values (passed as arguments, stored)"""

    def ops(r):
        for o in r.get("o", ()):
            yield o

    for bb in b.bb:
        for p, r, sp in bb["s"]:
            for o in ops(r):
                if "k" in o and "fn" in o["k"]:
                    yield o["k"]["fn"]
        t = bb["t"]
        if t["t"] == "call":
            for o in t["args"]:
                if "k" in o and "fn" in o["k"]:
                    yield o["k"]["fn"]


def body_of(prog, f):
    r = f.get("r")
    if r:
        if r["kind"] == "item":
            return prog.bodies.get(r.get("key")) or prog.bodies.get(r["id"])
        if r.get("ckey"):
            return prog.bodies.get(r["ckey"])
        return None
    return prog.bodies.get(f["id"])


def user_code(span):
    return "!" not in (span or "")


def parents(prog):
    """closures nested in a body are analysed with it"""
    d = defaultdict(list)
    for b in prog.bodies.values():
        if b.kind == "closure" and b.root:
            d[b.root].append(b)
    return d


# ------------------------------------------------------------------ field accesses of a raw body
def _places(x):
    if isinstance(x, list):
        if x and isinstance(x[0], int) and not isinstance(x[0], bool) and all(y == "*" or isinstance(y, dict) or isinstance(y, str) for y in x[1:]):
            yield x
            return
        for y in x:
            yield from _places(y)
    elif isinstance(x, dict):
        for k, y in x.items():
            if k != "k":
                yield from _places(y)


def fields_of_place(b, pl):
    """(adt, variant or None, field) passed through by a place, in order"""
    try:
        ty = b.lty(pl[0])
    except Exception:
        return
    var = None
    for e in pl[1:]:
        if ty is None:
            return
        if e == "*":
            ty = ty.a[0] if ty.a else None
        elif isinstance(e, dict):
            if "f" in e:
                if ty.k == "adt":
                    yield ty.adt, var, e["n"]
                ty = b.types[e["t"]]
                var = None
            elif "v" in e or "dc" in e:
                var = e.get("n", e.get("v", e.get("dc")))
            else:
                var = None
                ty = ty.a[0] if ty.k in ("slice", "array") and ty.a else None
        else:
            ty = ty.a[0] if ty.k in ("slice", "array") and ty.a else ty


def field_accesses(b):
    """(adt, field, 'read' | 'write', span) over the body's non-cleanup blocks; a reference or move counts as a read"""
    for bb in b.bb:
        if bb.get("cl"):
            continue
        for s in bb["s"]:
            d, r, sp = s[0], s[1], s[2] if len(s) > 2 else ""
            fs = list(fields_of_place(b, d))
            for i, (a, v, f) in enumerate(fs):
                yield a, f, "write" if i == len(fs) - 1 else "through", sp
            for pl in _places(r):
                for a, v, f in fields_of_place(b, pl):
                    yield a, f, "read", sp
        t = bb["t"]
        for k, x in t.items():
            if k == "dest":
                fs = list(fields_of_place(b, x))
                for i, (a, v, f) in enumerate(fs):
                    yield a, f, "write" if i == len(fs) - 1 else "through", bb.get("sp", "")
            elif t["t"] == "drop" and k == "p":
                continue
            else:
                for pl in _places(x) if isinstance(x, (list, dict)) else ():
                    for a, v, f in fields_of_place(b, pl):
                        yield a, f, "read", bb.get("sp", "")


# ------------------------------------------------------------------ counters
def node_of(e, i):
    d = e.__dict__.setdefault("_byid", {n.id: n for n in e.nodes})
    return d[i]


def phi_ins(e, ph):
    """[(predecessor node, value)] of a phi"""
    n = node_of(e, ph.a[0])
    loc = ph.a[1]
    out = []
    for (m, i), (st, _) in n.ins.items():
        v = st.get(loc[0])
        if v is None:
            continue
        for x in loc[1:]:
            v = engine.proj(v, x)
        out.append((m, v))
    return out


def deciders(e, ph):
    """conditions of the branches that decide which of its values a phi takes"""
    n = node_of(e, ph.a[0])
    ins = {m for m, _ in phi_ins(e, ph)}

    def reach(x):
        seen, st = set(), [x]
        while st:
            y = st.pop()
            if y not in seen and y is not n:
                seen.add(y)
                st += [z for z, _ in y.succ]
        return seen & ins

    out = []
    back, st = set(), list(ins)
    while st:
        y = st.pop()
        if y not in back and y is not n:
            back.add(y)
            st += [z for z, _ in e.preds.get(y, ())]
    for x in back:
        ls = [(y, l) for y, l in x.succ if l is not None and isinstance(l[0], Term)]
        if len(ls) < 2:
            continue
        # straight into the phi counts as the way in by this node
        rs = [frozenset(id(m) for m in (reach(y) if y is not n else {x})) for y, _ in ls]
        if len({r for r in rs if r}) > 1:
            out.append(ls[0][1][0])
    return out


def counts(e, starts, taken, stop, cap=2):
    """{node: set of numbers of `taken` edges} over the paths from each (node, number) in starts, not continuing from `stop` nodes"""
    seen = {}
    st = []
    for m, c in starts:
        seen.setdefault(m, set()).add(c)
        st.append((m, c, True))
    while st:
        m, c, first = st.pop()
        if m in stop and not first:
            continue
        for y, lab in m.succ:
            d = min(cap, c + (1 if lab is not None and taken(lab) else 0))
            if d not in seen.setdefault(y, set()):
                seen[y].add(d)
                st.append((y, d, False))
    return seen


def counter(e, t, taken, uses, off=0):
    """is t, wherever it is used (nodes `uses`), the number of elements taken before the current one (edges `taken`)?"""
    if t.op != "phi":
        return False
    S, st = {}, [t]
    while st:
        x = st.pop()
        if x in S:
            continue
        S[x] = phi_ins(e, x)
        for m, v in S[x]:
            b = v
            if b.op == "bin" and b.a[0].startswith("Add"):
                b = b.a[1] if b.a[2].op == "k" else b.a[2]
            if b.op == "phi":
                st.append(b)
    hs = {node_of(e, x.a[0]) for x in S}
    cache = {}

    def frm(x):
        if x not in cache:
            cache[x] = counts(e, [(node_of(e, x.a[0]), 0)], taken, hs)
        return cache[x]

    init = counts(e, [(e.nodes[0], 0)], taken, hs)
    for x, ins in S.items():
        h = node_of(e, x.a[0])
        for m, v in ins:
            add, b = 0, v
            if v.op == "bin" and v.a[0].startswith("Add"):
                k, b = (v.a[2], v.a[1]) if v.a[2].op == "k" else (v.a[1], v.a[2])
                if k.op != "k" or not isinstance(k.a[0], int):
                    return False
                add = k.a[0]
            # the edge m -> h itself may be a taking edge
            def at(seen):
                return {min(2, c + (1 if lab is not None and taken(lab) else 0)) for c in seen.get(m, ()) for y, lab in m.succ if y is h}
            if b.op == "k":
                if b.a[0] != 0 or add or at(init) - {0}:
                    return False
            elif b in S:
                if at(frm(b)) - {add}:
                    return False
            else:
                return False
    for u in uses:
        if frm(t).get(u, set()) - {1}:
            return False
    return True


def position(e, t, taken, uses):
    """is t, wherever it is used (nodes `uses`), the number of elements taken (edges `taken`) before the last one taken?"""
    if t.op != "phi":
        return False
    S, st = {}, [t]
    while st:
        x = st.pop()
        if x in S:
            continue
        S[x] = phi_ins(e, x)
        for m, v in S[x]:
            b = v
            if b.op == "bin" and b.a[0].startswith("Add"):
                b = b.a[1] if b.a[2].op == "k" else b.a[2]
            if b.op == "phi":
                st.append(b)
    hs = {node_of(e, x.a[0]) for x in S}
    cache = {}

    def frm(n):
        if n not in cache:
            cache[n] = counts(e, [(n, 0)], taken, hs, 4)
        return cache[n]

    def edge(seen, m, h):
        return {c + (1 if lab is not None and taken(lab) else 0) for c in seen.get(m, ()) for y, lab in m.succ if y is h}

    off = {}  # value = elements taken - off, at the phi's node
    todo = True
    while todo:
        todo = False
        for x, ins in S.items():
            h = node_of(e, x.a[0])
            for m, v in ins:
                add, b = 0, v
                if v.op == "bin" and v.a[0].startswith("Add"):
                    k, b = (v.a[2], v.a[1]) if v.a[2].op == "k" else (v.a[1], v.a[2])
                    if k.op != "k" or not isinstance(k.a[0], int):
                        return False
                    add = k.a[0]
                if b.op == "k" and isinstance(b.a[0], int):
                    got = {c - b.a[0] - add for c in edge(frm(e.nodes[0]), m, h)}
                elif b in S:
                    if b not in off:
                        continue
                    got = {c + off[b] - add for c in edge(frm(node_of(e, b.a[0])), m, h)}
                    # the phi of another node of the same round
                else:
                    return False
                for o in got:
                    if x not in off:
                        off[x] = o
                        todo = True
                    elif off[x] != o:
                        return False
    if t not in off:
        return False
    h = node_of(e, t.a[0])
    return all(frm(h).get(u) == {1 - off[t]} for u in uses)
