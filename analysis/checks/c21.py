"""Lists of actions: the loops that hand one action at a time to a sub-learner take every action once, in order, with the shared features merged in, and pair each
score with its own action; the label of a list reaches the sub-learner unmixed; the exploration methods give back the list of their sub-learner with only the
numbers replaced."""
import re
import q, reds, tab
import engine
from engine import Term, mk, pp, subterms

IMPL = "reductionml_core::reduction::ReductionImpl"
FEATS = "reductionml_core::types::Features"
PRED = "reductionml_core::types::Prediction"
VAR = {"None": 0, "Some": 1}


def run(ck):
    p = ck.prog()
    its = reds.impl_types(p)
    ck.floor("reductions", len(its), 6)
    loops = singles = lists = 0
    for adt in sorted(its):
        for m in ("predict", "learn", "predict_then_learn", "sensitivity"):
            b = its[adt].get(m)
            if b is None or b.path.startswith(IMPL + "::"):
                continue
            e = reds.explore(p, b, adt)
            key = f"{adt.split('::')[-1]}.{m}"
            l, s = per_action(ck, p, e, b, key, m)
            loops += l
            singles += s
            every(ck, e, key)
            if m == "predict":
                lists += result(ck, p, e, b, key)
            if m in ("learn", "predict_then_learn"):
                handed(ck, p, e, b, key)
    ck.floor("loops handing actions to a sub-learner", loops, 2)
    ck.floor("updates of a chosen action", singles, 1)
    ck.floor("exploration methods", lists, 3)


# ------------------------------------------------------------------ terms
def leaves(e, t):
    """what a join can be"""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            ins = e.phi_in.get(x)
            st += list(ins.values() if isinstance(ins, dict) else ins or ())
        else:
            out.append(x)
    return out


def nexts(e):
    """{result of next: [events]}"""
    out = {}
    for x in e.events:
        if x.kind == "call" and x.name.endswith("::next") and x.ret is not None:
            out.setdefault(x.ret, []).append(x)
    return out


def is_edge(lab, t, v):
    c, y = lab
    if not (isinstance(c, Term) and c.op == "discr" and c.a[0] is t):
        return False
    if isinstance(y, tuple) and y[0] == "ne":
        return v not in y[1] and VAR[v] not in y[1]
    return y == v or y == VAR[v] and not isinstance(y, bool)


def source(t):
    """(the list iterated as a whole, 'iter') of the argument of next; None for anything cut, reversed or filtered"""
    while t.op == "call" and re.search(r"(^|::)(iter|iter_mut|into_iter|by_ref)$", str(t.a[0])) and t.a[1]:
        t = t.a[1][0]
    return t


def field_of(t):
    """the place a reference or value is"""
    if t.op == "ref":
        return [x[1] for x in t.a[1] if isinstance(x, tuple)][-1:] or None
    if t.op in ("f",):
        return [t.a[1]]
    if t.op == "phi" and t.a[1][0][0] == "M" and len(t.a[1]) > 1 and t.a[1][-1][0] == "f":
        return [t.a[1][-1][1]]
    if t.op == "cref":
        return field_of(t.a[0])
    return None


def is_actions(t):
    f = field_of(t)
    return f is not None and f[-1] == "actions"


def rng(t):
    """0..len(actions)"""
    if t.op == "ref" or t.op != "agg" or not t.a[0].endswith("Range"):
        return False
    lo, hi = t.a[3]
    return lo.op == "k" and lo.a[0] == 0 and hi.op == "len" and is_actions(hi.a[0])


def element(t):
    """('next', result of next) / ('at', index) if t is one action of the list"""
    if t.op == "phi" and t.a[1][0][0] == "M" and len(t.a[1]) == 1 and isinstance(t.a[1][0][1], Term):
        return element(t.a[1][0][1])
    if t.op == "ref" and t.a[0][0] == "M" and not t.a[1]:
        return element(t.a[0][1])
    if t.op == "vf" and t.a[1] == "Some":
        n = t.a[0]
        if n.op == "call" and n.a[0] in ("next", "Iterator::next"):
            return ("next", n) if is_actions(source(n.a[1][0])) else None
        if n.op == "call" and re.search(r"(^|::)get(_mut)?$", str(n.a[0])) and is_actions(n.a[1][0]):
            return ("at", n.a[1][1])
        if n.op == "call" and re.search(r"(^|::)nth$", str(n.a[0])) and is_actions(source(n.a[1][0])):
            return ("at", n.a[1][1])
    if t.op == "idx" and is_actions(t.a[0]):
        return ("at", t.a[1])
    if t.op == "ref" and t.a[1] and isinstance(t.a[1][-1], tuple) and t.a[1][-1][0] == "idx" and [x for x in t.a[1] if x[0] == "f"][-1:] == [("f", "actions")]:
        return ("at", t.a[1][-1][1])
    return None


def given(t):
    """(element, merged shared features or None) of the features handed to a sub-learner"""
    if t.op != "agg" or t.a[0] != FEATS or t.a[1] not in ("SparseSimpleRef", "SparseSimple"):
        return None
    x = t.a[3][0]
    if x.op == "phi":
        el = element(x)
        return (el, None) if el else None
    if x.op == "post" and x.a[0].op == "call" and x.a[0].a[0].endswith("::append"):
        a = x.a[0].a[1]
        el = element(a[0])
        return (el, a[1]) if el else None
    el = element(x)
    return (el, None) if el else None


def is_shared(t):
    return t.op == "vf" and t.a[1] == "Some" and field_of(t.a[0]) == ["shared"]


def shared_edge(which):
    def f(lab):
        c, y = lab
        return isinstance(c, Term) and c.op == "discr" and field_of(c.a[0]) == ["shared"] and is_edge((c, y), c.a[0], which)

    return f


# ------------------------------------------------------------------ one action at a time
def per_action(ck, p, e, b, key, m):
    cs = [(x, given(x.args[1])) for x in reds.child_calls(e)]
    cs = [(x, g) for x, g in cs if g is not None]
    other = [x for x in reds.child_calls(e) if given(x.args[1]) is None and x.args[1].op == "agg" and x.args[1].a[0] == FEATS and x.args[1].a[1].startswith("SparseSimple")]
    adf = any(x.op == "vf" and x.a[1].startswith("SparseCBAdf") for ev in e.events for a in ev.args if isinstance(a, Term) for x in subterms(a)) or cs
    for x in other:
        if adf and any(s.op == "f" and s.a[1] == "actions" or s.op == "ref" and ("f", "actions") in s.a[1] for s in subterms(x.args[1])):
            ck.ob(f"plain-iteration:{key}", False, f"{key} hands {pp(x.args[1])[:160]} to the sub-learner, which is not an action taken from the list in order", q.loc(x))
    if not cs:
        return 0, 0
    nx = nexts(e)
    evs = {x for x, _ in cs}
    by = {}
    at = []
    for x, (el, sh) in cs:
        if el[0] == "next":
            by.setdefault(el[1], []).append(x)
        else:
            i = el[1]
            if i.op == "vf" and i.a[0].op == "call" and i.a[0].a[0] in ("next", "Iterator::next") and rng(i.a[0].a[1][0]):
                by.setdefault(i.a[0], []).append(x)
            else:
                at.append((x, i))
        # the shared features
        ck.ob(f"shared:{key}", sh is None or is_shared(sh), f"{key} merges {pp(sh)[:100] if sh is not None else ''} into an action instead of the shared features", q.loc(x))
    plain = {x for x, (el, sh) in cs if sh is None}
    late = q.not_preceded(e, lambda x: x in plain, None, shared_edge("None"))
    ck.ob(f"with-shared:{key}", not late, f"{key} can hand an action to the sub-learner without the shared features it has", q.loc(late[0]) if late else b.path)
    for x, (el, sh) in cs:
        # the merge is of this action, in this iteration
        if sh is not None:
            t = x.args[1].a[3][0].a[0]
            ck.ob(f"once-merged:{key}", not (t.a[1][0].op == "post"), f"{key} merges the shared features more than once", q.loc(x))
    for n, xs in by.items():
        some = lambda lab: is_edge(lab, n, "Some")
        ends = set(nx.get(n, ()))
        got = per_iteration(e, some, evs, ends)
        ck.ob(f"each-once:{key}", got == {1}, f"{key} hands an action to the sub-learner {sorted(got)} times in one round", q.loc(xs[0]))
    # every way out passes the end of a loop over the list, or the one update of a chosen action
    nones = lambda lab: any(is_edge(lab, n, "None") for n in by)
    single = {x for x, _ in at}
    for r in q.not_preceded(e, lambda x: x.kind == "ret", lambda x: x in single, nones):
        ck.ob(f"all:{key}", False, f"{key} can return before the last action", q.loc(r))
    ck.ob(f"all:{key}", True, "", b.path)
    for n in by:
        # after the loop, nothing more; a chosen action only outside of it
        for x in at:
            pass
    for x, i in at:
        more = [y for y in q.after(e, x) if y in evs]
        ck.ob(f"single:{key}", not more, f"{key} updates more than the chosen action", q.loc(x))
    mixed = [x for n in by for x in single if any(x in q.after(e, y) for y in by[n])]
    ck.ob(f"unmixed:{key}", not mixed, f"{key} updates an action after updating all of them", b.path)
    if m == "predict":
        scores(ck, p, e, b, key, by)
    if m in ("learn", "predict_then_learn"):
        labels(ck, p, e, b, key, by, at)
    return len(by), len(at)


def per_iteration(e, some, evs, ends):
    """numbers of calls in one round, over every path"""
    out = set()
    st = [(y, 0) for n in e.nodes for y, lab in n.succ if lab is not None and isinstance(lab[0], Term) and some(lab)]
    seen = set(st)
    while st:
        n, c = st.pop()
        done = False
        for x in n.events:
            if x in evs:
                c = min(c + 1, 3)
            if x in ends or x.kind == "ret":
                out.add(c)
                done = True
                break
            if x.kind == "panic":
                done = True
                break
        if done:
            continue
        for y, lab in n.succ:
            if (y, c) not in seen:
                seen.add((y, c))
                st.append((y, c))
    return out


def scores(ck, p, e, b, key, by):
    """the result: one entry per action, its position and its own score"""
    pushes = [x for x in e.events if x.kind in ("call", "elem") and x.name.endswith("push")]
    cand = []
    for x in e.events:
        if x.kind != "ret":
            continue
        for t in tab.alts(e, x.args[0]):
            ck.ob(f"list:{key}", t.op == "agg" and t.a[0] == PRED and t.a[1] == "ActionScores", f"{key} gives back {pp(t)[:100]}", b.path)
            if t.op == "agg" and t.a[0] == PRED:
                t = t.a[3][0]
                while t.op == "agg" and len(t.a[3]) == 1:
                    t = t.a[3][0]
                cand.append(t)
    todo, seen, ends = list(cand), set(), []
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        for l in leaves(e, t):
            if l in seen:
                continue
            seen.add(l)
            if l.op == "push":
                todo.append(l.a[0])
                ends.append(l)
            else:
                ck.ob(f"starts-empty:{key}", l.op == "arr" and not l.a[0] or l.op == "vec" and not l.a[0] or pp(l).startswith("[]") or l.op == "call" and re.search(r"Vec::(new|with_capacity)$|default$", str(l.a[0])), f"the result of {key} starts with {pp(l)[:80]}", b.path)
    if not ck.ob(f"entries:{key}", len(ends) > 0, f"the entries of the result of {key} are not appended one by one", b.path):
        return
    for l in ends:
        v = l.a[1]
        evs = [x for x in pushes if any(s is v for s in x.args)]
        where = q.loc(evs[0]) if evs else b.path
        if not ck.ob(f"entry:{key}", v.op == "tup" and len(v.a[0]) == 2 and evs, f"{key} lists {pp(v)[:100]}", where):
            continue
        i, s = v.a[0]
        # own score: the prediction made for the same action
        n = None
        if s.op == "f" and s.a[1] == "raw_prediction" and s.a[0].op == "vf":
            c = s.a[0].a[0]
            g = given(c.a[1][1]) if c.op == "call" and c.a[0] == "child.predict" else None
            if g is not None:
                el = g[0]
                n = el[1] if el[0] == "next" else el[1].a[0] if el[1].op == "vf" else None
        ck.ob(f"own-score:{key}", n in by, f"{key} lists {pp(s)[:160]} as the score of an action", where)
        if n not in by:
            continue
        # own number: how many actions came before
        taken = lambda lab: is_edge(lab, n, "Some")
        uses = {x.xn for x in evs}
        good = i.op == "phi" and q.position(e, i, taken, uses) or i.op == "vf" and i.a[0] is n and rng(n.a[1][0]) or i.op == "len" and i.a[0] is l.a[0]
        ck.ob(f"own-number:{key}", good, f"{key} lists {pp(i)[:100]} as the number of an action", where)
        got = per_iteration(e, taken, set(evs) | {x for x in pushes if any(y.op == "push" and y.a[1] is w for w in x.args for y in ends)}, set(nexts(e).get(n, ())))
        ck.ob(f"one-entry:{key}", got == {1}, f"{key} adds {sorted(got)} entries for one action", where)


# ------------------------------------------------------------------ labels
def quot(e, t):
    """(numerator factors, denominator factors) of a product"""
    if t.op == "cast":
        return quot(e, t.a[0]) if isinstance(t.a[0], Term) else quot(e, t.a[1])
    if t.op == "k":
        v = t.a[0]
        v = v[1] if isinstance(v, tuple) else v
        try:
            return ([], []) if float(v) == 1.0 else ([t], [])
        except (TypeError, ValueError):
            return [t], []
    if t.op == "bin" and t.a[0] in ("Mul", "Div"):
        a, b = quot(e, t.a[1]), quot(e, t.a[2])
        return (a[0] + b[0], a[1] + b[1]) if t.a[0] == "Mul" else (a[0] + b[1], a[1] + b[0])
    if t.op == "call" and re.search(r"recip$", str(t.a[0])):
        a = quot(e, t.a[1][0])
        return a[1], a[0]
    return [t], []


def label_field(t, n):
    """the field n of the label that was given"""
    return t.op == "f" and t.a[1] == n and any(s.op == "par" and "label" in str(s.a[0]) for s in subterms(t)) and not any(s.op in ("call", "bin", "phi") for s in subterms(t))


def zero(t):
    return t.op == "k" and (t.a[0] == 0 or isinstance(t.a[0], tuple) and float(t.a[0][1]) == 0)


def one(t):
    return t.op == "k" and (t.a[0] == 1 or isinstance(t.a[0], tuple) and float(t.a[0][1]) == 1)


def eq_edge(t, want):
    """edge on which position t is (want) / is not the labelled action"""

    def f(lab):
        c, y = lab
        if not (isinstance(c, Term) and c.op == "bin" and c.a[0] in ("Eq", "Ne") and isinstance(y, bool)):
            return False
        a, b = c.a[1], c.a[2]
        if label_field(a, "action"):
            a, b = b, a
        return label_field(b, "action") and t(a) and ((c.a[0] == "Eq") == y) == want

    return f


def labels(ck, p, e, b, key, by, at):
    for x in reds.child_calls(e, "learn") + reds.child_calls(e, "predict_then_learn"):
        g = given(x.args[1])
        if g is None:
            continue
        l = x.args[2]
        if not ck.ob(f"label:{key}", l.op == "agg" and l.a[1] == "Simple" and l.a[3][0].op == "agg", f"{key} hands on the label {pp(l)[:120]}", q.loc(x)):
            continue
        sl = dict(zip(l.a[3][0].a[2], l.a[3][0].a[3]))
        n = g[0][1] if g[0][0] == "next" else g[0][1].a[0] if g[0][1].op == "vf" and g[0][1].a[0] in by else None
        if n is not None and n in by:
            # cost over probability for the labelled action, nothing for the others
            taken = lambda lab: is_edge(lab, n, "Some")
            pos = lambda t: t.op == "phi" and q.position(e, t, taken, {x.xn}) or t.op == "vf" and t.a[0] is n and rng(n.a[1][0])
            ck.ob(f"weight:{key}", all(one(w) for w in leaves(e, sl["weight"])), f"{key} weighs an update by {pp(sl['weight'])[:100]}", q.loc(x))
            v = sl["value"]
            ins = values(e, v, x.xn)
            _, without = q.walk(e, None, None, eq_edge(pos, True))
            _, other = q.walk(e, None, None, eq_edge(pos, False))
            hit = False
            for node, w in ins:
                num, den = quot(e, w)
                if zero(w):
                    ck.ob(f"others:{key}", node not in other, f"{key} can update the labelled action without its cost", q.loc(x))
                else:
                    hit = True
                    ck.ob(f"cost:{key}", len(num) == 1 and len(den) == 1 and label_field(num[0], "cost") and label_field(den[0], "probability"), f"{key} updates the labelled action with {pp(w)[:120]} instead of cost over probability", q.loc(x))
                    ck.ob(f"whose:{key}", node not in without, f"{key} can use the cost of the labelled action for another action", q.loc(x))
            ck.ob(f"uses-cost:{key}", hit, f"{key} never uses the cost", q.loc(x))
            seen = q.not_preceded(e, lambda y: y is x, None, lambda lab: kind_edge(lab, "Ips"))
            ck.ob(f"kind:{key}:all", not seen, f"{key} updates all actions although the configuration asks for another method", q.loc(x))
        else:
            i = next(y for z, y in at if z is x)
            ck.ob(f"chosen:{key}", label_field(i, "action"), f"{key} updates the action {pp(i)[:80]} instead of the labelled one", q.loc(x))
            ck.ob(f"value:{key}", label_field(sl["value"], "cost"), f"{key} updates towards {pp(sl['value'])[:80]} instead of the cost", q.loc(x))
            num, den = quot(e, sl["weight"])
            prob = [t for t in den if label_field(t, "probability")]
            rest = [t for t in den if not label_field(t, "probability")]
            ev = [t for t in num if t.op == "bin" and t.a[0] == "Add" and any(own(y) for y in t.a[1:]) and any(one(y) for y in t.a[1:])]
            ac = [t for t in rest if t.op == "bin" and t.a[0] == "Add" and any(own(y) for y in t.a[1:]) and any(y.op == "len" and is_actions(y.a[0]) for y in t.a[1:])]
            good = len(num) == 1 and len(den) == 2 and len(prob) == 1 and len(ev) == 1 and len(ac) == 1
            ck.ob(f"importance:{key}", good, f"{key} weighs the update by {pp(sl['weight'])[:200]} instead of (events / actions) / probability", q.loc(x))
            for t in ev + ac:
                f = next(y for y in t.a[1:] if own(y))
                w = [y for y in e.events if y.kind == "write" and len(y.args) > 1 and y.args[1] is t]
                miss = q.not_preceded(e, lambda y: y is x, lambda y: y in w)
                ck.ob(f"counted:{key}:{f.a[1]}", bool(w) and not miss, f"{key} does not keep the count {f.a[1]} it weighs updates by", q.loc(x))
            seen = q.not_preceded(e, lambda y: y is x, None, lambda lab: kind_edge(lab, "Mtr"))
            ck.ob(f"kind:{key}:one", not seen, f"{key} updates one action although the configuration asks for another method", q.loc(x))


def own(t):
    return t.op == "f" and any(s.op == "par" and s.a[0] == "self" for s in subterms(t))


def kind_edge(lab, v):
    c, y = lab
    if not (isinstance(c, Term) and c.op == "discr" and own(c.a[0])):
        return False
    if isinstance(y, tuple) and y[0] == "ne":
        return False
    return y == v


def values(e, t, node, seen=None):
    """[(node, value)] a value can come from"""
    seen = seen if seen is not None else set()
    if t in seen:
        return []
    seen.add(t)
    if t.op == "phi":
        out = []
        for m, v in q.phi_ins(e, t):
            out += values(e, v, m, seen) if v.op == "phi" else [(m, v)]
        return out
    return [(node, t)]


def handed(ck, p, e, b, key):
    """a whole list handed on: the same features, the same label (its probability may be replaced by one)"""
    for x in reds.child_calls(e):
        if x.name not in ("child.learn", "child.predict_then_learn") or given(x.args[1]) is not None:
            continue
        l = x.args[2]
        for t in leaves(e, l):
            if t.op == "agg" and t.a[1] == "CB":
                c = t.a[3][0]
                for n in ("cost", "action", "probability"):
                    v = engine.proj(c, ("f", n))
                    ok = all(label_field(y, n) or n == "probability" and one(y) for y in leaves(e, v))
                    ck.ob(f"handed-label:{key}:{n}", ok, f"{key} hands {pp(v)[:100]} on as the {n} of the label", q.loc(x))


# ------------------------------------------------------------------ every loop over the actions
def every(ck, e, key):
    """a loop over a list of actions does not stop before its end"""
    for n, evs in nexts(e).items():
        if not is_actions(source(n.a[1][0])):
            continue
        body = set()
        st = [y for m in e.nodes for y, lab in m.succ if lab is not None and isinstance(lab[0], Term) and is_edge(lab, n, "Some")]
        ends = set(evs)
        bad = None
        seen = set(st)
        while st:
            m = st.pop()
            stop = False
            for x in m.events:
                if x in ends or x.kind == "panic":
                    stop = True
                    break
                if x.kind == "ret":
                    bad = x
                    stop = True
                    break
            if stop:
                continue
            for y, _ in m.succ:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        ck.ob(f"whole-list:{key}", bad is None, f"{key} can leave the loop over the actions before its end", q.loc(evs[0]))
    for x in e.events:
        if x.kind == "call" and re.search(r"::(skip|take|step_by|rev|skip_while|take_while|filter|next_back|nth|last|chunks|split_first|split_last|split_at)$", x.name) and any(isinstance(a, Term) and is_actions(source(a)) for a in list(x.args)[:1]):
            if x.name.endswith("::nth") and reds.child_calls(e, "learn"):
                continue
            ck.ob(f"whole-list:{key}", False, f"{key} goes through the actions with {x.name}", q.loc(x))


# ------------------------------------------------------------------ exploration: the sub-learner's list, with other numbers
def result(ck, p, e, b, key):
    rets = [t for x in e.events if x.kind == "ret" for t in tab.alts(e, x.args[0])]
    rets = [t for t in rets if t.op == "agg" and t.a[0] == PRED and t.a[1] == "ActionProbs"]
    if not rets:
        return 0
    kids = reds.child_calls(e, "predict")
    ck.ob(f"asks-once:{key}", len(kids) >= 1 and not q.not_preceded(e, lambda x: x.kind == "ret", lambda x: x in kids) and not any(y in kids for x in kids for y in q.after(e, x)), f"{key} does not ask its sub-learner exactly once", b.path)
    for x in kids:
        ck.ob(f"same-features:{key}", x.args[1].op == "par", f"{key} asks its sub-learner about {pp(x.args[1])[:80]}", q.loc(x))
    lists, roots = set(), set()
    for t in rets:
        t = t.a[3][0]
        while t.op == "agg" and len(t.a[3]) == 1:
            t = t.a[3][0]
        resolve(ck, e, b, key, t, lists)
    base = lambda t: is_list(t) and any(t.a and s.op == "call" and s.a[0] == "child.predict" for s in subterms(t))
    elems = {}
    for x in e.events:
        if x.kind == "call" and x.name.endswith("::next") and x.ret is not None:
            elems.setdefault(x.ret, []).append(x)
    # writes into entries replace the number only
    ours = lambda n: n.op == "call" and n.a[0] in ("next", "Iterator::next")
    wrote = []
    for x in e.events:
        if x.kind not in ("write", "lwrite", "elem"):
            continue
        t = x.args[0]
        if t.op != "ref":
            continue
        root, path = t.a[0], t.a[1]
        if root[0] == "M" and isinstance(root[1], Term) and root[1].op == "vf" and ours(root[1].a[0]) and is_mutable_pass(root[1].a[0]):
            ok = [y for y in path if y[0] == "f"][:1] == [("f", "1")] or not path and own_number(x.args[1], root[1])
            ck.ob(f"number-kept:{key}", ok, f"{key} changes the number of an action: {pp(t)[-60:]}", q.loc(x))
            wrote.append((x, root[1].a[0]))
        elif any(y[0] == "idx" for y in path if isinstance(y, tuple)):
            i = [k for k, y in enumerate(path) if y[0] == "idx"][0]
            if path[i + 1 : i + 2] and path[i + 1][0] == "f":
                ck.ob(f"number-kept:{key}", path[i + 1] == ("f", "1"), f"{key} changes the number of an action: {pp(t)[-60:]}", q.loc(x))
    for x in e.events:
        if x.kind == "call" and re.search(r"(Vec|slice)::(sort\w*|swap\w*|reverse|truncate|pop|remove|retain\w*|dedup\w*|drain|clear|insert|rotate\w*|select_nth\w*|extend\w*|append|split_off|resize\w*|fill\w*|copy_\w+|clone_from\w*)$", x.name) and x.args:
            r = x.refs[0] if x.refs else x.args[0]
            if x.args[0] in lists or strip_copy(x.args[0]) is None and any(s in lists for s in leaves(e, x.args[0])):
                ck.ob(f"order-kept:{key}", False, f"{key} rearranges the list of actions with {x.name}", q.loc(x))
    # positions are not numbers of actions
    for t in index_terms(e, lists):
        for l in leaves(e, t):
            ck.ob(f"position:{key}", not is_number(l, e), f"{key} uses the number of an action as a position in the list: {pp(l)[:100]}", b.path)
    for n in e.nodes:
        for _, lab in n.succ:
            if lab is None or not isinstance(lab[0], Term) or lab[0].op != "bin" or lab[0].a[0] not in ("Eq", "Ne"):
                continue
            ks = [{kindof(l, e) for l in leaves(e, y)} for y in lab[0].a[1:]]
            if all(len(k) == 1 for k in ks):
                k = {next(iter(y)) for y in ks}
                ck.ob(f"compared:{key}", k != {"number", "position"}, f"{key} compares the number of an action with a position in the list", b.path)
    # every entry gets a number
    best = [x for x in e.events if x.kind in ("lwrite", "elem", "write") and x.args[0].op == "ref" and any(isinstance(y, tuple) and y[0] == "idx" for y in x.args[0].a[1])]
    done = False
    ns = {n for _, n in wrote}
    for n in ns:
        W = {x for x, m in wrote if m is n}
        skip = same_entry(e, n) if best else lambda lab: False
        if 0 not in count_without(e, n, W, skip, set(elems.get(n, ()))):
            done = True
    ck.ob(f"all-replaced:{key}", done or fresh(e, rets), f"{key} can leave the sub-learner's score in the place of a probability", b.path)
    return 1


def count_without(e, n, W, skip, ends):
    out = set()
    st = [(y, 0) for m in e.nodes for y, lab in m.succ if lab is not None and isinstance(lab[0], Term) and is_edge(lab, n, "Some")]
    seen = set(st)
    while st:
        m, c = st.pop()
        stop = False
        for x in m.events:
            if x in W:
                c = 1
            if x in ends or x.kind == "ret":
                out.add(c)
                stop = True
                break
            if x.kind == "panic":
                stop = True
                break
        if stop:
            continue
        for y, lab in m.succ:
            if lab is not None and isinstance(lab[0], Term) and skip(lab):
                continue
            if (y, c) not in seen:
                seen.add((y, c))
                st.append((y, c))
    return out


def same_entry(e, n):
    """the entry at hand is the one written separately"""

    def f(lab):
        c, y = lab
        return c.op == "bin" and c.a[0] in ("Eq", "Ne") and isinstance(y, bool) and ((c.a[0] == "Eq") == y) and any(s.op == "vf" and s.a[0] is n for a in c.a[1:] for s in subterms(a)) or c.op == "bin" and c.a[0] in ("Eq", "Ne") and isinstance(y, bool) and ((c.a[0] == "Eq") == y) and all(kindof1(e, a) == "position" for a in c.a[1:])

    return f


def kindof1(e, t):
    ks = {kindof(l, e) for l in leaves(e, t)}
    return next(iter(ks)) if len(ks) == 1 else None


def fresh(e, rets):
    """a new list, built entry by entry"""
    for t in rets:
        t = t.a[3][0]
        while t.op == "agg" and len(t.a[3]) == 1:
            t = t.a[3][0]
        if not any(l.op == "push" for l in leaves(e, t)):
            return False
    return True


def is_list(t):
    return t.op in ("f", "vf")


def strip_copy(t):
    return t if t.op == "call" else None


def own_number(v, el):
    return v.op == "tup" and len(v.a[0]) == 2 and v.a[0][0] is mk("f", el, "0")


def is_mutable_pass(n):
    return any(s.op == "call" and str(s.a[0]).endswith("iter_mut") for s in subterms(n))


def resolve(ck, e, b, key, t, lists):
    """the list returned: the sub-learner's, changed only in the second components, or built anew from its entries"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        lists.add(x)
        if x.op == "phi":
            ins = e.phi_in.get(x)
            todo += list(ins.values() if isinstance(ins, dict) else ins or ())
        elif x.op == "wupd":
            todo.append(x.a[0])
        elif x.op == "upd":
            todo.append(x.a[0])
            st, v = x.a[1], x.a[2]
            ok = st[0] == "idx" and (v.op == "upd" and v.a[1] == ("f", "1") or v.op == "tup" and len(v.a[0]) == 2 and v.a[0][0].op == "f" and v.a[0][0].a[1] == "0" and v.a[0][0].a[0].op == "idx" and v.a[0][0].a[0].a[1] is st[1])
            ck.ob(f"number-kept:{key}", ok, f"{key} replaces an entry of the list: {pp(v)[:120]}", b.path)
        elif x.op == "push":
            todo.append(x.a[0])
            v = x.a[1]
            ok = v.op == "tup" and len(v.a[0]) == 2 and is_number(v.a[0][0])
            ck.ob(f"number-kept:{key}", ok, f"{key} lists {pp(v)[:120]}, which is not an action of the list with a number", b.path)
            if ok:
                n = v.a[0][0].a[0].a[0]
                W = {y for y in e.events if y.name.endswith("push") and any(z is v for z in y.args)}
                got = per_iteration(e, lambda lab: is_edge(lab, n, "Some"), W, set(nexts(e).get(n, ())))
                ck.ob(f"one-entry:{key}", got == {1}, f"{key} adds {sorted(got)} entries for one action", b.path)
        elif x.op == "f" and x.a[0].op == "vf" and x.a[0].a[0].op == "call" and x.a[0].a[0].a[0] == "child.predict":
            pass
        elif pp(x).startswith("[]") or x.op == "call" and re.search(r"Vec::(new|with_capacity)$|default$", str(x.a[0])):
            pass
        else:
            ck.ob(f"its-list:{key}", False, f"{key} gives back {pp(x)[:160]} instead of the list of its sub-learner", b.path)
    ck.ob(f"its-list:{key}", any(s.op == "call" and s.a[0] == "child.predict" for x in seen for s in subterms(x)), f"{key} gives back a list that is not its sub-learner's", b.path)


def is_number(t, e=None):
    """the first component of an entry"""
    if e is not None and t.op == "f" and t.a[1] == "0" and t.a[0].op == "phi":
        ls = leaves(e, t.a[0])
        return bool(ls) and all(is_number(mk("f", l, "0")) for l in ls)
    return t.op == "f" and t.a[1] == "0" and (t.a[0].op == "idx" or t.a[0].op == "vf" and t.a[0].a[0].op == "call" and t.a[0].a[0].a[0] in ("next", "Iterator::next"))


def kindof(t, e=None):
    if is_number(t, e):
        return "number"
    if t.op == "k" and isinstance(t.a[0], int) and not isinstance(t.a[0], bool) or t.op == "bin" and t.a[0].startswith("Add") and any(one(y) for y in t.a[1:]):
        return "position"
    return "other"


def index_terms(e, lists):
    out = set()
    for x in e.events:
        for a in x.args:
            if not isinstance(a, Term):
                continue
            for s in subterms(a):
                if s.op == "idx" and any(y.op == "call" and y.a[0] == "child.predict" for y in subterms(s.a[0])) or s.op == "idx" and s.a[0] in lists:
                    out.add(s.a[1])
                elif s.op == "upd" and s.a[1][0] == "idx":
                    out.add(s.a[1][1])
    return out
