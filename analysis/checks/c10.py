"""Parsers.  Panics: every reachable panic, checked operation and library call that can panic, seen from get_next_chunk, parse_chunk and
extract_feature_names of every parser with all crate functions inlined (build with overflow checks and debug assertions), has to be excluded
by the branches taken before it.  Termination: every loop takes an item from a finite iterator made outside the loop, or reads input; with all
reads at the end of the input, no loop of the reader can be stayed in (abstract interpretation with that one fact) and it returns end-of-input.  Recursion descends into the input.
Errors: a conversion of input that yields nothing, and a JSON value of an unexpected kind, cannot end in success without being used; text split
into parts is used up to its last part; a second labelled action is refused."""
import re
import q, cfg, engine, panics
from engine import Engine, K, mk, pp, subterms, Term
import checks.c15 as c15

TAGS = ["dev"]
CONV = re.compile(r"(^|::)(as_f64|as_i64|as_u64|as_str|as_bool|as_array|as_object|as_number|iter_array|iter_object|to_digit|checked_\w+)$")
KINDS = ["Null", "Bool", "Number", "Str", "Array", "Object"]
READ = re.compile(r"(BufRead|Read|\bStdin\w*|BufReader)::(read_line|read_until|read_to_string|read_to_end|read|read_exact|fill_buf|skip_until|lines)$")
ENDLESS = re.compile(r"::(repeat|repeat_with|cycle|from_fn|successors|repeat_n|once_with)$")
SPLIT = re.compile(r"(^|::)(split|rsplit|splitn|rsplitn|split_terminator|split_ascii_whitespace|split_whitespace|char_indices|chars)$")


def run(ck):
    ck.tag = "dev"
    p = ck.prog("dev")
    tr = cfg.trait(p, "TextModeParser")
    roots = [b for b in p.bodies.values() if b.kind == "method" and b.trait == tr]
    ck.anchor("parser methods", len(roots) >= 6)
    names = {b.path.split("::")[-1] for b in roots}
    ck.anchor("chunk reader", any(n.startswith("get_next") for n in names))
    roots += recursive(p, roots)
    n = {"panic": 0, "loops": 0, "conversions": 0, "kinds": 0, "readers": 0}
    for b in sorted(roots, key=lambda b: b.path):
        e = Engine(p, b)
        m = panics.Must(e, facts_of(e))
        key = short(b)
        sites(ck, e, m, key, n)
        loops(ck, e, m, key, n)
        if reads_input(e):
            at_end(ck, e, m, key, b)
            n["readers"] += 1
        conversions(ck, e, m, key, n)
        kinds(ck, e, m, key, n)
        once(ck, e, m, key)
        partial(ck, e, m, key)
    ck.floor("parser entry points analysed", len(roots), 8)
    ck.floor("operations that could panic", n["panic"], 40)
    ck.floor("loops", n["loops"], 20)
    ck.floor("conversions of input", n["conversions"], 10)
    ck.floor("kinds of JSON values told apart", n["kinds"], 30)
    ck.floor("readers of input", n["readers"], 3)
    k = parts(ck, p, roots)
    ck.floor("texts split into parts", k, 5)
    recursion(ck, p, roots)


def short(b):
    m = re.search(r"<([\w:]+?)(?:<.*>)? as ", b.path)
    if m:
        return m.group(1).split("::")[-1] + "." + b.path.split("::")[-1]
    return ".".join(b.path.split("::")[-2:])


def local_reach(p, b):
    seen, st = {}, [b]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        for f, sp, t in q.callees(p, x):
            y = q.body_of(p, f) if f else None
            if y is not None and y.crate in p.crates:
                st.append(y)
        for y in p.bodies.values():
            if y.root == x.id or getattr(y, "root", None) is x:
                st.append(y)
    return list(seen.values())


def recursive(p, roots):
    """functions reached from the parsers that call themselves: explored on their own"""
    out = []
    for b in roots:
        for x in local_reach(p, b):
            if x.kind == "closure" or x in out or x in roots:
                continue
            if any(f and q.body_of(p, f) is x for y in [x] for f, sp, t in q.callees(p, y)):
                out.append(x)
    return out


def facts_of(e):
    """the number of bits of a configuration is at most 31 (validated where the configuration is read: C09)"""
    base = {}
    for x in e.events:
        for a in x.args:
            if isinstance(a, Term):
                for t in subterms(a):
                    if t.op == "f" and t.a[1] == "num_bits":
                        base[t] = (0, 31)
    return base


# ------------------------------------------------------------------ panics
def sites(ck, e, m, key, n):
    seen = {}
    for x in e.events:
        if not (x.kind in ("panic", "assert") or x.kind == "call" and panics.PANICKY.search(x.path or x.name)):
            continue
        n["panic"] += 1
        why = panics.discharged(m, x, panics.width(x) if x.kind == "assert" else None)
        what = (x.path or x.name).split("::")[-1]
        k = f"panic:{key}:{fn(x)}:{what}"
        ok, msg, w = seen.get(k, (True, "", ""))
        if why is None and ok:
            seen[k] = (False, f"{what} can panic here for some input: nothing tested before excludes it (arguments {', '.join(pp(a)[:160] for a in x.args[:3] if isinstance(a, Term))})", q.loc(x))
        else:
            seen.setdefault(k, (True, "", q.loc(x)))
    for k, (ok, msg, w) in seen.items():
        ck.ob(k, ok, msg, w)


def fn(x):
    b = x.ctx.body
    c = x.ctx
    while b.kind == "closure" or "/rustlib/" in x.span and b.crate not in ("reductionml_core", "reductionml") and getattr(c, "parent", None) is not None:
        c = getattr(c, "parent", None)
        if c is None:
            break
        b = c.body
    return b.path.split("::")[-1]


# ------------------------------------------------------------------ loops
def sccs(nodes, succ):
    idx, low, on, out, st = {}, {}, set(), [], []
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(succ(r)))]
        idx[r] = low[r] = len(idx)
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ(w))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.add(w)
                        if w is v:
                            break
                    if len(c) > 1 or v in set(succ(v)):
                        out.append(c)
    return out


def loops(ck, e, m, key, n):
    live = set(m.at)
    st = m.at

    def edges(c):
        for x in c:
            if x not in live:
                continue
            for y, lab in x.succ:
                if y in c and y in live and not (lab is not None and isinstance(lab[0], Term) and m.refine(st[x], lab) is None):
                    yield x, y, lab

    work = [(set(live), frozenset())]
    bad = {}
    good = set()
    while work:
        c, cut = work.pop()
        adj = {}
        for x, y, lab in edges(c):
            if (x, y, lab) not in cut:
                adj.setdefault(x, set()).add(y)
        for s in sccs(list(c), lambda v: adj.get(v, ())):
            n["loops"] += 1
            h = name_of(s)
            pr = {(x, y, lab) for x, y, lab in edges(s) if (x, y, lab) not in cut and lab is not None and progress(e, m, s, lab)}
            if pr:
                good.add(h)
                work.append((s, cut | pr))
                continue
            if any(ev.kind == "call" and READ.search(ev.name) for x in s for ev in x.events):
                good.add(h)  # judged by at_end
                continue
            bad[h] = s
    for h in good | set(bad):
        x = next((ev for y in bad.get(h, ()) for ev in y.events), None)
        ck.ob(f"loop:{key}:{h}", h not in bad, "a loop that neither takes an item from a finite iterator made outside of it nor reads input: it may never end", q.loc(x) if x is not None else h)


def name_of(s):
    x = min(s, key=lambda y: y.id)
    c = x.ctx
    b = c.body
    while b.kind == "closure" or b.crate not in ("reductionml_core", "reductionml", "reml-bin", "reml"):
        c = getattr(c, "parent", None)
        if c is None:
            break
        b = c.body
    return b.path.split("::")[-1]


def progress(e, m, s, lab):
    c, v = lab
    if not isinstance(c, Term):
        return False
    if c.op == "discr" and v in ("Some", 1):
        t = c.a[0]
        if t.op == "vf" and t.a[1] == "Some" and (t.a[0].op == "phi" and t.a[0].a[1][-1:] == (("f", "peeked"),) or t.a[0].op == "f" and t.a[0].a[1] == "peeked"):
            return True  # an item taken earlier from the iterator underneath
        if panics.is_call(t, "next", "next_back", "nth") and t.a[1]:
            it = panics.deref(t.a[1][0])
            if any(y.op == "call" and ENDLESS.search("::" + y.a[0]) or y.op == "agg" and y.a[0].endswith("::RangeFrom") and not carried(e, it) for y in heads(it)):
                return False
            return not made_in(e, it, s)
        if panics.is_call(t, "pop", "pop_front", "pop_back"):
            return not any(ev.kind == "call" and re.search(r"::(push|push_back|push_front|extend|insert)$", ev.path or "") for x in s for ev in x.events)
    if (v is True or v is False) and c.op == "bin" and c.a[0] in ("Lt", "Le", "Ne", "Gt", "Ge", "Eq"):
        for a, b in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
            if a.op == "phi" and q.node_of(e, a.a[0]) in s and grows(e, a):
                op = c.a[0] if v else {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt", "Eq": "Ne", "Ne": "Eq"}[c.a[0]]
                if a is c.a[2]:
                    op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op)
                if op in ("Lt", "Le", "Ne") and not (b.op == "phi" and q.node_of(e, b.a[0]) in s):
                    return True
    return False


def carried(e, it):
    return False


def grows(e, ph):
    """every way round adds a positive constant"""
    n = 0
    for pr, v in q.phi_ins(e, ph):
        if v.op == "bin" and v.a[0] == "Add" and v.a[1] is ph and (panics.const(v.a[2]) or 0) > 0:
            n += 1
        elif panics.const(v) is None and any(y is ph for y in subterms(v)):
            return False
    return n > 0


def heads(t):
    """what an iterator is made of, without the elements of its sources"""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x in seen or len(seen) > 60:
            continue
        seen.add(x)
        out.append(x)
        if x.op == "call" and x.a[1]:
            st.append(panics.deref(x.a[1][0]))
        elif x.op == "agg":
            st += [y for y in x.a[3] if isinstance(y, Term)]
    return out


def made_in(e, it, s):
    """is the iterator made anew within the loop?"""
    made = {}
    for x in s:
        for ev in x.events:
            if ev.kind == "call" and ev.ret is not None:
                made[ev.ret] = ev
    for y in heads(it):
        if y in made and y.op == "call" and not panics.is_call(y, "next", "next_back"):
            return True
        if y.op == "call" and not panics.is_call(y, "iter", "into_iter"):
            break
    return False


# ------------------------------------------------------------------ reading at the end of the input
def reads_input(e):
    return any(x.kind == "call" and READ.search(x.name) for x in e.events)


class Sym:
    """evaluation with every read at the end of the input.  Text: ('s', base, w): base 1 stands for some text that does not end in white
    space, w counts white space characters after it.  Integers: ('i', a, b) is a * (length of that text) + b."""

    def __init__(self, e, env):
        self.e = e
        self.env = env

    def ev(self, t, d=0):
        if t in self.env:
            return self.env[t]
        if d > 40:
            return None
        c = panics.const(t)
        if c is not None:
            return ("i", 0, c)
        if t.op == "k" and t.a[0] == "":
            return ("s", 0, 0)
        if panics.empty(t) or panics.is_call(t, "String::new", "new") and not t.a[1]:
            return ("s", 0, 0)
        if t.op in ("ref", "cref"):
            return self.ev(panics.deref(t), d + 1) if panics.deref(t) is not t else None
        if t.op == "post":
            c, i = t.a[0], t.a[1]
            if c.op == "call":
                n = c.a[0].split("::")[-1]
                if READ.search(c.a[0]) and i == 1:
                    return self.ev(c.a[1][1], d + 1)
                if i == 0 and n == "clear":
                    return ("s", 0, 0)
                if i == 0 and n == "push" and len(c.a[1]) == 2:
                    return self.push(self.ev(c.a[1][0], d + 1), c.a[1][1])
                if i == 0 and n == "push_str" and len(c.a[1]) == 2:
                    return self.push(self.ev(c.a[1][0], d + 1), c.a[1][1])
                if i == 0 and n == "truncate":
                    return self.cut(self.ev(c.a[1][0], d + 1), self.ev(c.a[1][1], d + 1))
                if i == 0 and n == "pop":
                    s = self.ev(c.a[1][0], d + 1)
                    return ("s", s[1], s[2] - 1) if s and s[0] == "s" and s[2] > 0 else s if s == ("s", 0, 0) else None
            return None
        if t.op == "push":
            return self.push(self.ev(t.a[0], d + 1), t.a[1])
        if t.op == "vf" and t.a[1] == "Ok" and t.a[0].op == "call" and READ.search(t.a[0].a[0]):
            return ("i", 0, 0)
        if t.op == "len" or panics.is_call(t, "len"):
            s = self.ev(panics.deref(t.a[0] if t.op == "len" else t.a[1][0]), d + 1)
            return ("i", s[1], s[2]) if s and s[0] == "s" else None
        if panics.is_call(t, "trim_end", "trim", "trim_ascii_end", "trim_right") and t.a[1]:
            s = self.ev(panics.deref(t.a[1][0]), d + 1)
            return ("s", s[1], 0) if s and s[0] == "s" else None
        if panics.is_call(t, "as_str", "deref", "as_ref", "clone", "borrow", "to_owned", "to_string", "from", "into") and t.a[1]:
            return self.ev(panics.deref(t.a[1][0]), d + 1)
        if t.op == "bin" and t.a[0] in ("Add", "Sub"):
            a, b = self.ev(t.a[1], d + 1), self.ev(t.a[2], d + 1)
            if a and b and a[0] == b[0] == "i":
                k = 1 if t.a[0] == "Add" else -1
                return ("i", a[1] + k * b[1], a[2] + k * b[2])
        return None

    def push(self, s, c):
        if s is None or s[0] != "s" or c.op != "k":
            return None
        v = c.a[0]
        x = chr(v[1]) if isinstance(v, tuple) and v and v[0] == "char" else v if isinstance(v, str) else None
        if x is None:
            return None
        if x.strip() == "":
            return ("s", s[1], s[2] + len(x))
        return ("s", 1, 0) if s == ("s", 0, 0) else None

    def cut(self, s, n):
        if s is None or n is None or s[0] != "s" or n[0] != "i":
            return None
        if n[1] == s[1] and 0 <= n[2]:
            return ("s", s[1], min(s[2], n[2]))
        if n == ("i", 0, 0):
            return ("s", 0, 0)
        return None

    def truth(self, c):
        if c.op == "k" and isinstance(c.a[0], bool):
            return c.a[0]
        if c.op == "un" and c.a[0] == "Not":
            r = self.truth(c.a[1])
            return None if r is None else not r
        if panics.is_call(c, "is_empty") and c.a[1]:
            s = self.ev(panics.deref(c.a[1][0]))
            return s[1] == 0 and s[2] == 0 if s and s[0] == "s" else None
        if c.op == "bin" and c.a[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            a, b = self.ev(c.a[1]), self.ev(c.a[2])
            if a and b and a[0] == b[0] == "i":
                k, d = a[1] - b[1], a[2] - b[2]  # a - b = k * len + d, len >= 1
                lo = k + d if k >= 0 else None
                sign = None
                if k == 0:
                    sign = (d > 0) - (d < 0)
                elif k > 0 and k + d > 0:
                    sign = 1
                elif k < 0 and k + d < 0:
                    sign = -1
                if sign is None:
                    return None
                return {"Eq": sign == 0, "Ne": sign != 0, "Lt": sign < 0, "Le": sign <= 0, "Gt": sign > 0, "Ge": sign >= 0}[c.a[0]]
            if a and b and a[0] == b[0] == "s" and c.a[0] in ("Eq", "Ne"):
                return (a == b) == (c.a[0] == "Eq")
        return None

    def can(self, lab):
        c, v = lab
        if not isinstance(c, Term):
            return True
        if v is True or v is False:
            r = self.truth(c)
            return r is None or r == v
        if c.op == "discr" and c.a[0].op == "call" and READ.search(c.a[0].a[0]):
            return v in ("Ok", 0)  # a read that fails ends the call
        if c.op == "discr":
            return True
        a = self.ev(c)
        if a and a[0] == "i" and a[1] == 0:
            if isinstance(v, int):
                return a[2] == v
            if isinstance(v, tuple) and v[0] == "ne":
                return a[2] not in v[1]
        return True


def at_end(ck, e, m, key, b):
    """abstract interpretation with every read at the end of the input"""
    ph = {}
    for t, vs in e.phi_in.items():
        ph.setdefault(q.node_of(e, t.a[0]), []).append(t)
    ins = {t: dict() for t in e.phi_in}
    for t in e.phi_in:
        for pr, v in q.phi_ins(e, t):
            ins[t][pr] = v
    bufs = set()
    for x in e.events:
        if x.kind == "call" and READ.search(x.name) and len(x.args) > 1:
            bufs.add(panics.deref(x.args[1]))

    def explore(n0, env0, fromstart):
        """does a path come back to the same state?  returned values"""
        rets, cyc = [], None
        color = {}
        st = [(n0, tuple(sorted(env0.items(), key=lambda kv: kv[0].id)), False)]
        steps = 0
        while st:
            n, env, done = st.pop()
            k = (n, env)
            if done:
                color[k] = 2
                continue
            if color.get(k) == 2:
                continue
            if color.get(k) == 1:
                continue
            color[k] = 1
            st.append((n, env, True))
            steps += 1
            if steps > 20000:
                return rets, n
            sy = Sym(e, dict(env))
            dead = False
            for ev in n.events:
                if ev.kind == "panic":
                    dead = True
                    break
                if ev.kind == "ret":
                    rets.append((ev, sy))
                    dead = True
                    break
            if dead:
                continue
            for y, lab in n.succ:
                if lab is not None and not sy.can(lab):
                    continue
                d = dict(env)
                new = {}
                for t in ph.get(y, ()):
                    v = ins[t].get(n)
                    if v is not None:
                        r = sy.ev(v)
                        new[t] = r
                for t, r in new.items():
                    if r is None:
                        d.pop(t, None)
                    else:
                        d[t] = r
                k2 = (y, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))
                if color.get(k2) == 1:
                    cyc = y
                    continue
                st.append((k2[0], k2[1], False))
        return rets, cyc

    rets, cyc = explore(e.start, {}, True)
    where = f"{b.path}"
    ck.ob(f"ends:{key}", cyc is None, "at the end of the input the function goes round a loop for ever", q.loc(cyc.events[0]) if cyc is not None and cyc.events else where)
    wrong = None
    for ev, sy in rets:
        v = ev.args[0]
        if not none_ok(e, sy, v):
            wrong = ev
    ck.ob(f"end of input:{key}", bool(rets) and wrong is None, "at the end of the input something other than 'no more chunks' can be returned: the caller would never finish", q.loc(wrong) if wrong is not None else where)
    # the end of the input met in the middle of a chunk
    for t in e.phi_in:
        if t in bufs or any(t is y for bf in bufs for y in [bf]):
            n = q.node_of(e, t.a[0])
            for s0 in (("s", 0, 0), ("s", 1, 0), ("s", 1, 1)):
                r, cyc = explore(n, {t: s0}, False)
                ck.ob(f"ends midway:{key}:{name_of({n})}", cyc is None, "when the input ends in the middle of a chunk the function goes round a loop for ever", q.loc(cyc.events[0]) if cyc is not None and cyc.events else where)
    # a chunk is only returned after something was read
    reads = lambda x: x.kind == "call" and READ.search(x.name)
    early = [x for x in q.not_preceded(e, lambda x: x.kind == "ret", reads) if m.before(x) is not None and not c15.fails(x.args[0])]
    ck.ob(f"consumes:{key}", not early, "returns without having read any input", q.loc(early[0]) if early else where)


def none_ok(e, sy, v, d=0):
    """Ok(None) or an error"""
    if c15.fails(v):
        return True
    if v.op == "phi":
        r = [x for x in e.phi_in.get(v, ()) if x is not v]
        return bool(r) and d < 6 and all(none_ok(e, sy, x, d + 1) or not live(e, sy, x) for x in r)
    if v.op == "agg" and v.a[1] == "Ok" and v.a[3]:
        x = v.a[3][0]
        return x.op == "agg" and x.a[1] == "None"
    return False


def live(e, sy, x):
    return True


# ------------------------------------------------------------------ errors
def conversions(ck, e, m, key, n):
    seen = {}
    for x in e.events:
        if x.kind != "call" or x.ret is None or not CONV.search(x.name) or m.before(x) is None:
            continue
        n["conversions"] += 1
        k = f"conversion:{key}:{fn(x)}:{x.name.split('::')[-1]}"
        out = c15.outcomes(e, [(x.xn, x)], x.ret)
        out = [o for o in out if m.before(o[0]) is not None]
        if out:
            seen[k] = (False, f"when {x.name} yields nothing the example can still be accepted", q.loc(x))
        else:
            seen.setdefault(k, (True, "", q.loc(x)))
    for k, r in seen.items():
        ck.ob(k, *r)


def kind_of(v, labs):
    return KINDS[v] if isinstance(v, int) and not isinstance(v, bool) and 0 <= v < 6 else v


def kinds(ck, e, m, key, n):
    """a JSON value found to be of some kind is used, refused, or absent"""
    tested = {}
    for x in m.at:
        for y, lab in x.succ:
            if lab is not None and isinstance(lab[0], Term) and lab[0].op == "discr":
                tested.setdefault(lab[0].a[0], []).append((x, y, lab[1]))
    seen = {}
    for t, es in tested.items():
        if not any(k in ("Str", "Number", "Object", "Array", "Bool") for _, _, k in es):
            continue
        for x, y, lab in es:
            nm = kind_of(lab, None)
            if nm in ("Null", None) or isinstance(nm, tuple) or m.refine(m.at[x], (mk("discr", t), lab)) is None:
                continue
            n["kinds"] += 1
            uses = [t]
            src = panics.payload(t)
            if src is not None and panics.is_call(src, "first", "last", "get") and src.a[1]:
                uses.append(panics.deref(src.a[1][0]))
            used = lambda ev: ev.kind in ("call", "write", "elem", "lwrite") and any(mentions(a, t, uses) for a in ev.args)
            asm = (lambda env, l: mentions(l[0], t, uses) and l[0].op != "discr" or l[0].op == "discr" and l[0].a[0] is not t and mentions(l[0], t, uses),)
            out = [o for o in c15.outcomes(e, [(y, None)], None, used, asm) if m.before(o[0]) is not None and not mentions(o[1], t, uses)]
            k = f"kind:{key}:{where_of(x)}:{nm}"
            if out:
                seen[k] = (False, f"a JSON value that is {nm} is skipped without an error ({pp(t)[-140:]})", q.loc(out[0][0]))
            else:
                seen.setdefault(k, (True, "", ""))
    for k, r in seen.items():
        ck.ob(k, *r)


def where_of(x):
    return name_of({x})


def mentions(a, t, uses):
    """the content of the value (or the list it was taken from)"""
    if not isinstance(a, Term):
        return False
    for s in subterms(a):
        if s.op == "vf" and s.a[0] is t:
            return True
        if s is t and a is not t and a.op != "discr":
            return True
        if s is t and a is t:
            return True
        if len(uses) > 1 and s is uses[1] and t not in set(subterms(a)):
            return True
    return False


def partial(ck, e, m, key):
    """an example counts as unlabelled only when none of the values that make up a label is there"""
    rets = [x for x in e.events if x.kind == "ret" and x.ctx.depth == 0 and m.before(x) is not None]
    tested = {lab[0].a[0] for x in m.at for _, lab in x.succ if lab is not None and isinstance(lab[0], Term) and lab[0].op == "discr"}
    vals = set()
    for x in rets:
        for l in panics.leaves(e, x.args[0]):
            for t in subterms(l):
                if t.op == "agg" and t.a[0].endswith("Label"):
                    vals |= {s.a[0] for s in subterms(t) if s.op == "vf" and s.a[0] in tested and panics.is_call(s.a[0], "get") and re.search(r"Value", s.a[0].a[0])}
    if not vals:
        return
    for x in rets:
        for l in panics.leaves(e, x.args[0]):
            if not (l.op == "agg" and l.a[1] == "Ok" and l.a[3] and l.a[3][0].op == "tup") or any(s.op == "agg" and s.a[0].endswith("Label") for s in subterms(l)):
                continue
            v = l.a[3][0].a[0][-1]
            if not (v.op == "agg" and v.a[1] == "None"):
                continue
            lab = m.before(x).lab
            null = {c.a[0] for c, k in lab if c.op == "discr" and kind_of(k, None) == "Null"} | {panics.deref(c.a[1][0]) for c, k in lab if k is True and panics.is_call(c, "is_null")}
            for t in vals:
                ok = any(s in null for s in subterms(t))
                ck.ob(f"part of a label:{key}:{keyname(t)}", ok, f"an example with only part of a label is taken as unlabelled ({pp(t)[-120:]})", q.loc(x))


def once(ck, e, m, key):
    """a label found while going through the actions is not replaced by another one"""
    fields = {}
    for x in e.events:
        if x.kind != "ret" or x.ctx.depth != 0:
            continue
        for l in [x.args[0]] + list(panics.leaves(e, x.args[0])):
            for t in subterms(l):
                if t.op == "agg" and t.a[0].endswith("Label"):
                    for i, v in enumerate(t.a[3]):
                        if isinstance(v, Term) and v.op == "phi":
                            fields.setdefault(i, {}).setdefault(v, x)
                elif t.op == "phi":
                    fields.setdefault("whole", {}).setdefault(t, x)
    for i, tops in sorted(fields.items(), key=str):
        sets, seen, st = [], set(), list(tops)
        while st:
            ph = st.pop()
            if ph in seen:
                continue
            seen.add(ph)
            for pr, v in q.phi_ins(e, ph):
                base = v
                while i != "whole" and base.op in ("f", "vf", "deref", "idx") and isinstance(base.a[0], Term):
                    base = base.a[0]
                if base.op == "phi" and (base.a[0] == ph.a[0] or ph in tops and loophead(e, base)):
                    st.append(base)
                if v.op == "phi":
                    continue
                if labelled(v) if i == "whole" else (v.op not in ("k", "const") and base.op != "phi" and not arith(v)):
                    sets.append((pr, ph))
        for pr, ph in sets:
            if pr not in m.at:
                continue
            r = reach(q.node_of(e, ph.a[0]), m)
            bad = [b for b, ph2 in sets if b in r and b in m.at
                   and not any(c.op == "discr" and v2 in ("None", 0) and c.a[0].op == "phi" and carries(e, c.a[0], ph) for c, v2 in m.at[b].lab)]
            ck.ob(f"one label:{key}", not bad, "a second label in the same example silently replaces the first", q.loc(next(iter(tops.values()))))


def loophead(e, ph):
    n = q.node_of(e, ph.a[0])
    back = {pr is n or n in before_of(e, pr) for pr, _ in q.phi_ins(e, ph)}
    return len(back) == 2  # entered from outside, and from the end of the loop


def before_of(e, n):
    seen, st = set(), [n]
    while st:
        x = st.pop()
        for y, _ in e.preds.get(x, ()):
            if y not in seen:
                seen.add(y)
                st.append(y)
    return seen


def keyname(t):
    return next((pp(a).strip("'\"") for a in t.a[1][1:2]), "?")


def labelled(v):
    return v.op == "agg" and v.a[1] == "Some" and v.a[3] and v.a[3][0].op == "agg" and v.a[3][0].a[0].endswith("Label")


def arith(v):
    return v.op in ("bin", "un", "cast")


def reach(n, m):
    seen, st = set(), [n]
    while st:
        x = st.pop()
        if x in seen or x not in m.at:
            continue
        seen.add(x)
        for y, l in x.succ:
            if l is None or m.refine(m.at[x], l) is not None:
                st.append(y)
    return seen


def carries(e, t, ph, d=0):
    if t is ph or t.a[0] == ph.a[0]:
        return True
    return t.op == "phi" and d < 6 and any(carries(e, y, ph, d + 1) for y in e.phi_in.get(t, ()) if y is not t and y.op == "phi")


# ------------------------------------------------------------------ parts of a text
def parts(ck, p, roots):
    """a text that is split is looked at up to its last part before success"""
    k = 0
    done = set()
    for r in roots:
        for b in local_reach(p, r):
            if b.id in done or b.crate not in p.crates or b.kind == "closure":
                continue
            done.add(b.id)
            if not any(f and SPLIT.search(f["path"]) for y in [b] for f, sp, t in q.callees(p, y)):
                continue
            e = Engine(p, b, opaque=own)
            m = panics.Must(e)
            for x in e.events:
                if x.kind == "call" and SPLIT.search(x.name) and x.ctx.body.crate in p.crates and m.before(x) is not None:
                    k += 1
                    lim = panics.const(x.args[1]) if x.name.endswith("splitn") and len(x.args) > 1 else None
                    out = unfinished(e, m, x, lim)
                    ck.ob(f"parts:{b.path.split('::')[-1]}:{x.name.split('::')[-1]}", not out, "success without having looked at what follows the parts that were taken", q.loc(out[0]) if out else q.loc(x))
    # numbers of tokens
    for b in [y for r in roots for y in local_reach(p, r)]:
        if b.id in done and b.path.endswith("parse_label") and any("&[&str]" in str(b.lty(i).s) for i in range(1, b.argc + 1) if b.lty(i) is not None):
            done.discard(b.id)
            e = Engine(p, b, opaque=own)
            m = panics.Must(e)
            i = next(i for i in range(1, b.argc + 1) if "&[&str]" in str(b.lty(i).s))
            tok = e.start and [t for t in {s for x in e.events for a in x.args if isinstance(a, Term) for s in subterms(a)} | {s for n in e.nodes for _, l in n.succ if l and isinstance(l[0], Term) for s in subterms(l[0])} if t.op == "par" and t.a[0] == b.lname(i)]
            if tok:
                k += 1
                bad = None
                for x in e.events:
                    if x.kind == "ret":
                        for pr, v in rleaves(e, x.xn, x.args[0]):
                            if not c15.fails(v) and v.op == "agg" and v.a[1] == "Ok" and pr in m.at and m.iv(m.at[pr], mk("len", tok[0]))[1] > 4:
                                bad = x
                ck.ob("parts:label tokens", bad is None, "a label with any number of further tokens is accepted", q.loc(bad) if bad else b.path)
    return k


def own(x, f):
    """functions of the repository stay calls, the standard library's combinators are followed"""
    return x.kind != "closure" and x.path.lstrip("<&").startswith(("reductionml", "reml"))


def rleaves(e, n, v, seen=None):
    seen = set() if seen is None else seen
    if v.op != "phi":
        return [(n, v)]
    if v in seen:
        return []
    seen.add(v)
    out = []
    for pr, x in q.phi_ins(e, v):
        out += rleaves(e, pr, x, seen)
    return out


def same_iter(t, x):
    """t is the iterator made by event x, whatever has been taken from it"""
    for _ in range(60):
        t = panics.deref(t)
        if t is x.ret:
            return True
        if t.op == "post":
            t = t.a[0]
            if t.op == "call" and t.a[1]:
                t = t.a[1][0]
                continue
            return False
        if t.op == "agg" and t.a[3]:
            return any(isinstance(y, Term) and same_iter(y, x) for y in t.a[3])
        if t.op == "clo":
            return any(isinstance(y, Term) and same_iter(y, x) for y in t.a[1])
        if t.op == "call" and t.a[1] and re.search(r"(map|filter|enumerate|peekable|rev|skip|take|iter|into_iter|by_ref|trim|fuse|filter_map|flat_map|skip_while|take_while)$", t.a[0]):
            t = t.a[1][0]
            continue
        return False
    return False


def unfinished(e, m, x, lim):
    """successful returns reachable from the split without its end having been seen, or the iterator given to someone else"""

    def stop(ev):
        if ev.kind == "call" and ev is not x and not re.search(r"(^|::)(next|next_back|by_ref|nth|peek)$", ev.name) and any(isinstance(a, Term) and same_iter(a, x) for a in ev.args):
            return True
        return False

    def asm(env, lab):
        c, v = lab
        if c.op == "discr" and c.a[0].op == "call" and c.a[0].a[1] and v in ("None", 0) and re.search(r"next$|next_back$|peek$", c.a[0].a[0]):
            return same_iter(c.a[0].a[1][0], x)
        return False

    def closed(env, lab):
        """None inside Option adaptors"""
        c, v = lab
        if (v is True or v is False) and panics.is_call(c, "is_some", "is_none", "is_ok", "is_err"):
            t = c.a[1][0]
            return panics.is_call(panics.deref(t), "next") and same_iter(panics.deref(t).a[1][0], x) and (c.a[0].endswith(("is_none", "is_err")) == v)
        return False

    out = c15.outcomes(e, [(x.xn, x)], None, stop, (asm, closed))
    out = [o for o in out if m.before(o[0]) is not None]
    if out and lim:
        # at most `lim` parts: that many were taken on every way to success
        taken = lambda l: l[0].op == "discr" and l[1] in ("Some", 1) and l[0].a[0].op == "call" and l[0].a[0].a[1] and l[0].a[0].a[0].endswith("next") and same_iter(l[0].a[0].a[1][0], x)
        seen, st, few = set(), [(x.xn, 0)], set()
        while st:
            n, c = st.pop()
            if (n, c) in seen:
                continue
            seen.add((n, c))
            if n is not x.xn and any(stop(ev) for ev in n.events):
                continue
            if c < lim:
                few.add(n)
            for y, l in n.succ:
                if l is not None and isinstance(l[0], Term) and (asm(None, l) or closed(None, l)):
                    continue
                st.append((y, min(lim, c + (1 if l is not None and isinstance(l[0], Term) and taken(l) else 0))))
        out = [o for o in out if o[0].xn in few]
    return [o[0] for o in out]


# ------------------------------------------------------------------ recursion
def recursion(ck, p, roots):
    k = 0
    for b in roots:
        e = Engine(p, b)
        for x in e.events:
            if x.kind == "call" and x.callee and q.body_of(p, x.callee) is not None and q.body_of(p, x.callee) in roots and b is q.body_of(p, x.callee):
                k += 1
                ok = any(isinstance(a, Term) and inner(panics.deref(a), e, b) for a in x.args)
                ck.ob(f"recursion:{short(b)}", ok, "a recursive call that does not descend into its own input: it may never end", q.loc(x))
    ck.floor("recursive calls", k, 1)


def inner(t, e, b):
    """an item of a list that is part of a parameter"""
    for s in subterms(t):
        if s.op == "call" and s.a[0].endswith("next") and s.a[1]:
            for y in heads(panics.deref(s.a[1][0])):
                z = y
                while z.op in ("vf", "f"):
                    z = z.a[0]
                if z is not y and z.op == "par":
                    return True
    return False
