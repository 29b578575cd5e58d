"""The hand-over slot protocol: a type that is asserted Sync because its cells are published through an atomic flag."""
import re
import q
from engine import pp, contains, subterms

REL = ("SeqCst", "Release", "AcqRel")
ACQ = ("SeqCst", "Acquire", "AcqRel")


def unsafe_impls(prog):
    for i in prog.impls:
        if i.get("trait") in ("core::marker::Send", "core::marker::Sync") and i.get("unsafe") and not i.get("neg"):
            if "!" in i["span"]:
                continue
            yield i


def fields(a):
    return [(f["n"], a["types"][f["t"]]) for v in a["vs"] for f in v["f"]]


def methods_of(prog, adt):
    out = []
    for b in prog.bodies.values():
        if b.kind in ("method", "fn") and b.self_ty is not None and b.self_ty.k == "adt" and b.self_ty.adt == adt and not b.derived:
            out.append(b)
    if not out:
        out = [b for b in prog.bodies.values() if b.kind in ("method", "fn") and b.argc and b.lty(1).strip().isadt(adt)]
    return out


def ordering(t):
    return t.a[1] if t.op == "agg" else None


def cell_of(t, cells):
    for c in cells:
        for s in subterms(t):
            if s.op == "f" and s.a[1] == c:
                return c
    return None


def slot_check(ck, prog, adt):
    """returns list of (key, ok, msg) for one slot ADT"""
    a = prog.adts[adt]
    name = adt.split("::")[-1]
    fs = fields(a)
    flags = [n for n, t in fs if t.s.startswith("core::sync::atomic::") or "Atomic" in t.s]
    cells = [n for n, t in fs if t.isadt("core::cell::UnsafeCell")]
    ck.ob(f"slot:{name}:flag", len(flags) >= 1, f"{adt} is asserted Sync but has no atomic flag that publishes its contents")
    odd = [n for n, t in fs if n not in cells and n not in flags and re.search(r"::(Cell|RefCell|Rc|OnceCell|LazyCell)<|\*(mut|const) ", t.s)]
    ck.ob(f"slot:{name}:fields", not odd, f"{adt} is asserted Sync over {odd}, which no publication protocol protects")
    ck.ob(f"slot:{name}:contents-send", a.get("send"), f"{adt} is asserted Sync but its contents are not Send")
    ms = methods_of(prog, adt)
    ck.count("slot methods", len(ms))
    runs = [(b, q.run(prog, b)) for b in ms]
    published = set()
    pubvals = set()
    pubs = 0
    for b, e in runs:
        st = [ev for ev in q.calls(e, r"^Atomic\w*::(store|swap|fetch_\w+|compare_exchange\w*)$") if cell_of(ev.args[0], flags)]
        if not st:
            continue
        pubs += 1
        acc = [ev for ev in e.events if ev.kind == "call" and re.search(r"UnsafeCell::(get|get_mut|raw_get)$", ev.name)]
        for ev in acc:
            published.add(cell_of(ev.args[0], cells))
        for s in st:
            o = ordering(s.args[-1]) if "compare" not in s.name else ordering(s.args[-2])
            ck.ob(f"slot:{name}:{b.path.split('::')[-1]}:release", o in REL, f"{b.path} publishes {name} with ordering {o}: the contents written before it may not be visible to the reader", q.loc(s))
            if s.args[1].op == "k":
                pubvals.add(s.args[1].a[0])
            # content written before, nothing touched after
            late = [x for x in q.after(e, s) if (x.kind == "call" and re.search(r"UnsafeCell::", x.name)) or (x.kind == "write" and any(sub.op == "call" and "UnsafeCell" in sub.a[0] for sub in subterms(x.args[0])))]
            ck.ob(f"slot:{name}:{b.path.split('::')[-1]}:no-access-after-publish", not late, f"{b.path} touches the contents of {name} after publishing it", q.loc(s))
            w = lambda x: x.kind == "write" and "UnsafeCell" in pp(x.args[0])
            early = q.not_preceded(e, lambda x: x is s, w)
            ck.ob(f"slot:{name}:{b.path.split('::')[-1]}:write-before-publish", not early, f"{b.path} can publish {name} before its contents are written", q.loc(s))
            nw = q.not_followed(e, s, lambda x: x.kind == "call" and re.search(r"wake|notify|unpark", x.name))
            waits = any(q.calls(e2, r"atomic_wait::wait$|::park|::wait$") for _, e2 in runs)
            ck.ob(f"slot:{name}:{b.path.split('::')[-1]}:wake", not nw or not waits, f"{b.path} publishes {name} without waking the waiter", q.loc(s))
    published.discard(None)
    ck.ob(f"slot:{name}:publisher", pubs >= 1, f"no method of {adt} publishes its contents through the flag")

    def implied(lab):
        c, v = lab
        if c.op == "bin" and c.a[0] in ("Eq", "Ne"):
            x, y = c.a[1], c.a[2]
            if y.op != "k":
                x, y = y, x
            if x.op == "call" and "::load" in x.a[0] and y.op == "k" and cell_of(x, flags) and ordering(x.a[1][-1]) in ACQ:
                eq = (c.a[0] == "Eq") == bool(v)
                return (eq and y.a[0] in pubvals) or (not eq and y.a[0] == 0 and 0 not in pubvals)
        if c.op == "call" and "::load" in c.a[0] and cell_of(c, flags) and ordering(c.a[1][-1]) in ACQ:
            return v in pubvals or (isinstance(v, tuple) and v[0] == "ne" and 0 in v[1] and 0 not in pubvals)
        return False

    readers = 0
    for b, e in runs:
        if any(x.kind == "call" and re.search(r"^Atomic\w*::(store|swap)", x.name) for x in e.events):
            continue
        acc = lambda x: x.kind == "call" and re.search(r"UnsafeCell::(get|get_mut|raw_get)$", x.name) and cell_of(x.args[0], cells) in published
        if not [x for x in e.events if acc(x)]:
            continue
        if b.argc and b.lty(1).k == "adt":
            continue  # consumes the slot by value: exclusive access
        readers += 1
        un = q.not_preceded(e, acc, None, implied)
        ck.ob(f"slot:{name}:{b.path.split('::')[-1]}:acquire", not un, f"{b.path} reads the contents of {name} on a path where no acquiring load of the flag has shown it published", q.loc(un[0]) if un else "")
    ck.count("slot readers", readers)
