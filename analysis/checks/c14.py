"""The multi-threaded training command.  The command, the scope closure and every closure given to a spawned thread are explored
separately, with captured variables identified with the values of the spawning function, so that every channel endpoint, the parser
and each example can be followed from thread to thread.  Reader: every chunk that is read goes exactly once, as one and the same
object, into the queue of the parsers and into the queue of the learner, in the order read, by a single thread.  Parsers: every object
received is parsed from its own input and published exactly once before the next one is received, whatever the outcome.  Learner: a
single thread receives in queue order and learns from every received object exactly once before receiving the next; it stops only when
the queue has ended or with an error.  Termination: every sending endpoint dies with the reader on every path, the learner's receiving
endpoint dies on every path that stops learning early before anything waits for the reader, nobody waits for the reader before the
queue has ended, at least one parser thread is started before learning.  Serial and parallel training do the same with an example."""
import re
import q, tab, cfg, engine, models
from engine import Engine, Event, Call, K, mk, pp, subterms, Term
import checks.c06 as c06
import checks.c08 as c08
import checks.c03 as c03

CHAN = re.compile(r"(bounded|unbounded|channel|sync_channel|rendezvous)$")
SEND = re.compile(r"(Sender|SyncSender)::(send|try_send|send_timeout|send_deadline|send_async)$")
RECV = re.compile(r"Receiver::(recv|try_recv|recv_timeout|recv_deadline|drain|try_iter)$")
PUBLISH = re.compile(r"(Atomic\w*::(store|swap|compare_exchange|fetch_\w+)|OnceLock::set|OnceCell::set|Sender::send|Condvar::notify_\w+)$")


def m_spawn(ex, t, f, a):
    s = tuple(ex.snap(x) for x in a)
    ct = Call("spawn", s, ex.nonce())
    ex.events.append(Event("call", "spawn", path=f["path"], args=s, refs=tuple(a), ret=ct, span=ex.span, ctx=ex.ctx, callee=f))
    return ex.finish(t, ct)


def m_clone(ex, t, f, a):
    """a second endpoint of the same queue is a separate value"""
    ty = models.selfty(ex, f)
    if ty is not None and ty.k == "adt" and re.search(r"::(Sync)?Sender$|::Receiver$", ty.adt):
        s = tuple(ex.snap(x) for x in a)
        ct = Call("endpoint_clone", s, ex.nonce())
        ex.events.append(Event("call", "endpoint_clone", path=f["path"], args=s, refs=tuple(a), ret=ct, span=ex.span, ctx=ex.ctx, callee=f))
        return ex.finish(t, ct)
    return models.m_clone(ex, t, f, a)


SPAWN = {"Clone::clone": m_clone, "Scope::spawn": m_spawn, "thread::spawn": m_spawn, "functions::spawn": m_spawn}


def m_nested(ex, t, f, a):
    s = tuple(ex.snap(x) for x in a)
    ct = Call("thread_scope", s, ex.nonce())
    ex.events.append(Event("call", "thread_scope", path=f["path"], args=s, refs=tuple(a), ret=ct, span=ex.span, ctx=ex.ctx, callee=f))
    return ex.finish(t, ct)


def run(ck):
    p = ck.prog()
    learn = c03_entries(p)
    cands = []
    for b in p.bodies.values():
        if b.kind in ("fn", "method") and b.crate.startswith("reml") and b.root is None:
            fs = [f for m in c06.reach_local(p, b) for f, sp, t in q.callees(p, m) if f]
            if any(re.search(r"::(scope|spawn)$", f["path"]) and "thread" in f["path"] for f in fs):
                cands.append(b)
    # the function(s) that start threads, seen from the command that calls them
    cmds = [b for b in p.bodies.values() if b.kind == "method" and b.m == "execute" and b.crate.startswith("reml") and any(c in c06.reach(p, b) for c in cands)]
    if not ck.anchor("command that trains with several threads", cmds):
        return
    for b in cmds:
        Train(ck, p, b, learn).check()
    ck.floor("commands with parallel parsing", len(cmds), 1)


def c03_entries(p):
    return {"Workspace::learn", "Workspace::predict_then_learn"}


class Train:
    def __init__(self, ck, p, b, learn):
        self.ck, self.p, self.b = ck, p, b
        self.learn = learn
        tr = cfg.trait(p, "TextModeParser")
        self.get = lambda x: x.kind == "call" and x.callee and x.callee.get("m") == "get_next_chunk" and x.callee.get("trait") == tr
        self.parse = lambda x: x.kind == "call" and x.callee and x.callee.get("m") == "parse_chunk" and x.callee.get("trait") == tr
        self.learns = lambda x: x.kind == "call" and x.name in learn
        self.op = lambda bb, f: not bb.crate.startswith("reml")

    def engine(self, body, args=None, nested=None):
        ms = dict(SPAWN)
        if nested:
            ms["scoped::scope"] = m_nested
        return Engine(self.p, body, args=args, opaque=self.op, models=ms)

    def check(self):
        ck, p = self.ck, self.p
        em = self.engine(self.b, nested=True)
        scopes = {x.args[0]: x for x in em.events if x.name == "thread_scope"}
        self.em = em
        if scopes:
            # one copy per state is enough for what happens inside: the captured values differ only in merged state
            reps = {}
            for c, x in scopes.items():
                reps.setdefault(c.a[0], (c, x))
            ck.ob("scope:one", len(reps) == 1, "several places start parser threads")
            c, x = list(reps.values())[0]
            # captured values whose variant is known differently in the copies (a file that was asked for or not)
            same = [d for d in scopes if d.a[0] == c.a[0] and len(d.a[1]) == len(c.a[1])]
            caps = tuple(
                v if all(d.a[1][i].op != "agg" or v.op == "agg" and d.a[1][i].a[1] == v.a[1] for d in same) else mk("par", f"captured{i}")
                for i, v in enumerate(c.a[1])
            )
            c = mk("clo", c.a[0], caps)
            self.scope_ev = [y for y in em.events if y.name == "thread_scope"]
            el = self.engine(p.bodies[c.a[0]], args=[c])
        else:
            self.scope_ev = []
            el = em
        self.el = el
        threads = []
        for x in el.events:
            if x.name == "spawn":
                clos = [a for a in x.args if a.op == "clo"]
                if ck.ob("spawn:closure", len(clos) == 1, "a thread is started with something other than a closure", q.loc(x)) and not any(t[1] is clos[0] and t[0].span == x.span for t in threads):
                    threads.append((x, clos[0], self.engine(p.bodies[clos[0].a[0]], args=[clos[0]])))
        ck.count("thread bodies explored", len(threads))
        self.threads = threads
        readers = [t for t in threads if any(self.get(y) for y in t[2].events)]
        workers = [t for t in threads if any(self.parse(y) for y in t[2].events)]
        tl = [t for t in threads if any(self.learns(y) for y in t[2].events)]
        ck.ob("learner:thread", not tl and any(self.learns(y) for y in el.events), "learning does not happen in the thread that owns the workspace", q.loc(tl[0][0]) if tl else "")
        if not ck.ob("reader:one", len(readers) == 1 and not any(t in workers for t in readers), f"{len(readers)} threads read the input") or not ck.anchor("parser threads", workers):
            return
        rd = readers[0]
        ck.ob("reader:once", not any(y.name == "spawn" and y.span == rd[0].span for y in q.after(el, rd[0])), "several threads read the input", q.loc(rd[0]))
        # which channel is which
        pch = {chan(y.args[0]) for t in workers for y in receives(t[2])}
        lch = {chan(y.args[0]) for y in receives(el)}
        if not ck.ob("channels", len(pch) == 1 and len(lch) == 1 and None not in pch | lch and pch != lch, f"the queues to the parsers and to the learner are not two separate ones ({len(pch)}, {len(lch)})"):
            return
        self.P, self.L = list(pch)[0], list(lch)[0]
        self.reader(rd)
        for t in workers:
            self.worker(t)
        self.learner(rd, workers)
        self.endpoints(rd)
        self.serial(em, rd, workers)

    # ------------------------------------------------------------ reader
    def reader(self, rd):
        ck = self.ck
        e = rd[2]
        gets = [x for x in e.events if self.get(x)]
        sends = [x for x in e.events if x.kind == "call" and SEND.search(x.name)]
        ck.count("sends", len(sends))
        for x in sends:
            ck.ob("reader:send-waits", x.name.endswith("::send"), f"{x.name} gives up when the queue is full and the example is lost", q.loc(x))
        for ch, what in ((self.P, "parsers"), (self.L, "learner")):
            sx = [x for x in sends if chan(x.args[0]) is ch]
            if not ck.ob(f"reader:{what}", sx, f"nothing is sent to the {what}"):
                continue
            ids = {id(x) for x in sx}
            gone = lambda lab: failed_send(e, lab, sends)
            for g in gets:
                st = edges(e, g.ret, ("Some",))
                end = edges(e, g.ret, ("None",))
                ck.ob("reader:loop", bool(st) and bool(end), "the reader does not distinguish a chunk from the end of the input", q.loc(g))
                bad = walk_from(e, st, stop_ev=lambda y: id(y) in ids, stop_edge=gone)
                miss = [y for y in bad if self.get(y) or y.kind == "ret"]
                ck.ob(f"reader:{what}:every", bool(st) and not miss, f"a chunk that was read can be left out for the {what}", q.loc(g))
            for x in sx:
                again = [y for y in q.walk(e, x, lambda y: self.get(y))[0] if id(y) in ids]
                ck.ob(f"reader:{what}:once", not again, f"a chunk can be sent to the {what} twice", q.loc(x))
                ck.ob(f"reader:{what}:own", any(g.ret in set(c06.deep(e, x.args[1])) for g in gets), f"what is sent to the {what} is not the chunk that was read: {pp(x.args[1])[:100]}", q.loc(x))
        objs = {obj(x.args[1]) for x in sends if chan(x.args[0]) in (self.P, self.L)}
        ck.ob("reader:same", len(objs) == 1, "the parsers and the learner are not given the same object")
        for x in sends:
            ck.ob("reader:only", chan(x.args[0]) in (self.P, self.L), f"{q.loc(x)} sends to a queue that nobody reads")
        # stops only at the end, with an error, or when the receiver is gone
        none = lambda lab: any(is_edge(e, lab, g.ret, ("None", "Err", "Break")) for g in gets) or failed_send(e, lab, sends)
        early = [y for y in q.walk(e, None, None, none)[0] if y.kind == "ret"]
        ck.ob("reader:all", not early, "reading can stop before the end of the input")
        other = [t for t in self.threads if t is not rd] + [(None, None, self.el)]
        for t in other:
            for x in t[2].events:
                if x.kind == "call" and SEND.search(x.name) and chan(x.args[0]) in (self.P, self.L):
                    ck.bad("order", f"{q.loc(x)} also sends examples, so they can reach the learner out of order")

    # ------------------------------------------------------------ parser threads
    def worker(self, t):
        ck = self.ck
        e = t[2]
        rs = receives(e)
        for r in rs:
            ck.ob("worker:waits", re.search(r"::recv$|next$", r.name), f"{r.name} does not wait for the next example", q.loc(r))
            got = edges(e, r.ret, ("Ok", "Some"))
            end = lambda lab: any(is_edge(e, lab, r2.ret, ("Err", "None")) for r2 in rs)
            ck.ob("worker:loop", bool(got), "what a parser thread receives is not looked at", q.loc(r))
            pubs = [x for x in e.events if x.kind == "call" and PUBLISH.search(x.name) and any(r.ret in set(c06.deep(e, a)) for a in list(x.args[:1]) + [z for z in x.refs[:1] if isinstance(z, Term)])]
            ids = {id(x) for x in pubs}
            left = walk_from(e, got, stop_ev=lambda y: id(y) in ids)
            miss = [y for y in left if y.kind == "ret" or y in rs]
            ck.ob("worker:published", bool(got) and bool(pubs) and not miss, "an example can be taken from the queue without its result being published: the learner waits for it forever", q.loc(r))
            for x in pubs:
                again = [y for y in q.walk(e, x, lambda y: y in rs)[0] if id(y) in ids]
                ck.ob("worker:once", not again, "a result can be published twice", q.loc(x))
            ps = [x for x in e.events if self.parse(x)]
            pid = {id(x) for x in ps}
            un = [y for y in walk_from(e, got, stop_ev=lambda y: id(y) in pid) if id(y) in ids]
            ck.ob("worker:parsed", bool(ps) and not un, "a result can be published without the input having been parsed", q.loc(un[0]) if un else "")
            for x in ps:
                ck.ob("worker:input", r.ret in set(c06.deep(e, x.args[-1])), "the text that is parsed is not that of the example received", q.loc(x))
                wr = [y for y in e.events if y.kind in ("write", "call") and any(isinstance(a, Term) and x.ret in set(c06.deep(e, a)) for a in y.args[1:])]
                into = [y for y in wr if isinstance(y.args[0], Term) and r.ret in set(c06.deep(e, y.args[0])) or y.kind == "write" and addr_has(e, y.args[0], r.ret)]
                ck.ob("worker:result", bool(into), "the result of parsing is not stored in the example received", q.loc(x))
            early = [y for y in q.walk(e, None, None, end)[0] if y.kind == "ret"]
            ck.ob("worker:all", not early, "a parser thread can stop while there are examples left", q.loc(r))
        # waiting inside the parser thread on anything else
        for x in e.events:
            if x.kind == "call" and re.search(r"(JoinHandle::join|Barrier::wait|Condvar::wait\w*)$", x.name):
                ck.bad("worker:blocks", f"a parser thread waits ({x.name})", q.loc(x))

    # ------------------------------------------------------------ learner
    def learner(self, rd, workers):
        ck, e = self.ck, self.el
        rs = receives(e)
        for r in rs:
            ck.ob("learner:waits", re.search(r"::recv$|next$", r.name), f"{r.name} does not wait for the next example", q.loc(r))
            got = edges(e, r.ret, ("Ok", "Some"))
            ls = [x for x in e.events if self.learns(x) and self.fed_by(e, x, r.ret)]
            allof = [x for x in e.events if self.learns(x)]
            ck.ob("learner:features", len(ls) == len(allof) and ls, "what is learned from is not the example received", q.loc(allof[0]) if allof else "")
            ids = {id(x) for x in ls}
            left = walk_from(e, got, stop_ev=lambda y: id(y) in ids)
            miss = [y for y in left if y in rs]
            ck.ob("learner:every", bool(got) and not miss, "an example that was received can be skipped by the learner", q.loc(r))
            end = lambda lab: any(is_edge(e, lab, r2.ret, ("Err", "None")) for r2 in rs)
            for x in ls:
                again = [y for y in q.walk(e, x, lambda y: y in rs)[0] if id(y) in ids]
                ck.ob("learner:once", not again, "an example can be learned from twice", q.loc(x))
            early = good_returns(e, [e.start], end)
            ck.ob("learner:all", not early, "learning can stop before the end of the queue without an error", q.loc(r))
            # nobody waits before the queue has ended or the receiver is gone
            drops = {id(x) for x in e.events if x.kind == "drop" and re.search(r"(Receiver|IntoIter)<", x.path or "") and recv_end(x.args[0], self.L)}
            reach = q.walk(e, None, lambda y: id(y) in drops, end)[0]
            waits = [y for y in reach if y.kind == "call" and re.search(r"JoinHandle::join$", y.name)]
            ck.ob("deadlock:join", not waits, "the reader is waited for while it can still be blocked on the queue to the learner", q.loc(waits[0]) if waits else "")
            self.reader_fails(e)
            if self.scope_ev:
                outs = [y for y in reach if y.kind == "ret"]
                ck.ob("deadlock:scope", not outs, "when learning stops early the queue to the learner stays open: the reader blocks on it forever and so does the command")
            # reader and parsers run before the learner waits
            for s, what in [(rd, "reader")] + [(w, "parsers") for w in workers]:
                spans = s[0].span
                lb = self.loop_of(e, s[0])
                skip = (lambda lab: False)
                if lb is not None:
                    # a loop that starts threads: it must run at least once
                    ok = self.positive(lb)
                    ck.ob(f"start:{what}:some", ok, f"the loop that starts the {what} may not run at all: {pp(lb)[:100]}", q.loc(s[0]))
                    skip = lambda lab: c08.is_next_edge(lab, lb, "None")
                un = [y for y in q.walk(e, None, lambda y: y.name == "spawn" and y.span == spans, skip)[0] if y in rs]
                ck.ob(f"start:{what}", not un, f"the learner can wait before the {what} have been started", q.loc(un[0]) if un else "")
        js = [y for y in e.events if y.kind == "call" and re.search(r"JoinHandle::join$", y.name) and any(z is rd[0].ret for z in c06.deep(e, y.args[0]))]
        ids = {id(x) for x in js}
        lost = good_returns(e, [e.start], None, lambda y: id(y) in ids)
        ck.ob("reader:joined", js and not lost, "how reading the input ended is not looked at")

    def fed_by(self, e, x, ret):
        return ret in set(c06.deep(e, x.args[1])) and ret in set(c06.deep(e, x.args[2]))

    def loop_of(self, e, s):
        """the next call whose element drives the loop around event s"""
        for n in c08.nexts(e):
            if s in q.after(e, n) and n in q.after(e, s):
                st = edges(e, n.ret, ("Some",))
                if s in walk_from(e, st, stop_ev=lambda y: y.kind == "call" and y.ret is n.ret):
                    return n.ret
        return None

    def positive(self, r):
        """is the range iterated by `r` non-empty whenever the threads are used?"""
        rng = [s for s in subterms(r) if s.op == "agg" and s.a[0].split("::")[-1].startswith("Range") or s.op == "call" and s.a[0] == "RangeInclusive::new"]
        if len(rng) != 1:
            return False
        if rng[0].op == "call":
            st, en = rng[0].a[1]
        else:
            d = dict(zip(rng[0].a[2], rng[0].a[3]))
            st, en = d.get("start"), d.get("end")
        if "RangeInclusive" in rng[0].a[0]:
            st = K(st.a[0] - 1) if st is not None and st.op == "k" and isinstance(st.a[0], int) else None
        if st is not K(0) or en is None:
            return False
        if en.op == "k":
            return isinstance(en.a[0], int) and en.a[0] > 0
        if en.op == "call" and en.a[0].endswith("max") and any(z.op == "k" and isinstance(z.a[0], int) and z.a[0] > 0 for z in en.a[1]):
            return True
        # the threads are reached only with a non-zero number
        em = self.em

        def nz(lab):
            c, v = lab
            if not isinstance(c, Term):
                return False
            if alike(c, en):
                return v not in (0, False, "0")
            if c.op == "bin" and c.a[0] in ("Eq", "Ne", "Gt", "Lt") and any(alike(z, en) for z in c.a[1:]) and any(z is K(0) for z in c.a[1:]):
                if c.a[0] == "Eq":
                    return not v
                return bool(v) and (c.a[0] == "Ne" or c.a[0] == "Gt" and c.a[2] is K(0) or c.a[0] == "Lt" and c.a[1] is K(0))
            return False

        return not [y for y in q.walk(em, None, None, nz)[0] if y.name == "thread_scope" or y.name == "spawn"]

    def reader_fails(self, e):
        """an error of the reading thread ends parallel training with that error, as it does serial training"""
        import checks.c15 as c15

        for x in [x for x in e.events if x.kind == "call" and re.search(r"JoinHandle::join$", x.name)]:
            self.ck.ob("reader:panic", not c15.outcomes(e, [(x.xn, x)], x.ret), "training can succeed although the reading thread died", q.loc(x))
            inner = mk("vf", x.ret, "Ok", "0")
            starts = [(n, None) for n in edges(e, x.ret, ("Ok",))]
            outs = [v for y, v in c15.outcomes(e, starts, inner) if not c15.keeps(e, x, inner, v)]
            self.ck.ob("reader:error", not outs, "training can succeed although reading the input failed", q.loc(x))

    # ------------------------------------------------------------ endpoints
    def endpoints(self, rd):
        """every sending endpoint dies with the reader, or before the learner first waits"""
        ck = self.ck
        er, el, em = rd[2], self.el, self.em
        lrecv = {r.ret for r in receives(el)}
        for ch, what in ((self.P, "parsers"), (self.L, "learner")):
            ends = {mk("f", ch, "0")}
            for e in [em, el] + [t[2] for t in self.threads]:
                for x in e.events:
                    if x.kind == "call" and x.name == "endpoint_clone" and send_end(x.args[0], ch):
                        ends.add(x.ret)
            for s in ends:
                is_drop = lambda y, s=s: y.kind == "drop" and y.args and (y.args[0] is s or obj(y.args[0]) is s) or y.kind == "call" and y.name.endswith("mem::drop") and y.args and obj(y.args[0]) is s
                dr = [y for y in er.events if is_drop(y)]
                alive = not owned(self.p, rd[1], s) and ([y for y in q.walk(er, None, is_drop)[0] if y.kind == "ret"] if dr else True)
                if alive:
                    # dropped by the spawning thread before it waits
                    dm = [y for y in el.events if is_drop(y)]
                    alive = not dm or [y for y in q.walk(el, None, is_drop)[0] if y.kind == "call" and y.ret in lrecv]
                ck.ob(f"endpoint:{what}", not alive, f"the sending end of the queue to the {what} outlives the reader: {'the parser threads' if what == 'parsers' else 'the learner'} never see its end")

    # ------------------------------------------------------------ serial
    def serial(self, em, rd, workers):
        ck = self.ck
        gets = [x for x in em.events if self.get(x)]
        if not ck.anchor("serial training", gets):
            return
        for g in gets:
            st = edges(em, g.ret, ("Some",))
            ps = {id(x) for x in em.events if self.parse(x) and g.ret in set(c06.deep(em, x.args[-1]))}
            ck.ob("serial:parsed", bool(st) and ps and not [y for y in walk_from(em, st, stop_ev=lambda y: id(y) in ps) if self.get(y) or y.kind == "ret"], "a chunk can be left out in serial training", q.loc(g))
            for x in [x for x in em.events if id(x) in ps]:
                ls = {id(y) for y in em.events if self.learns(y) and self.fed_by(em, y, x.ret)}
                left = walk_from(em, [n for n in [x.xn]], stop_ev=lambda y: id(y) in ls, skip=x)
                ck.ob("serial:every", ls and not [y for y in left if self.get(y)], "an example can be skipped in serial training", q.loc(x))
                for y in [y for y in em.events if id(y) in ls]:
                    again = [z for z in q.walk(em, y, lambda z: self.get(z))[0] if self.learns(z)]
                    ck.ob("serial:once", not again, "an example can be learned from twice in serial training", q.loc(y))
            outs = good_returns(em, st, lambda lab: any(is_edge(em, lab, g2.ret, ("None",)) for g2 in gets))
            ck.ob("serial:all", not outs, "serial training can stop before the end of the input without an error", q.loc(g))
        # the same parser and the same treatment of an example
        pa = {parser_of(x.args[0]) for x in em.events if self.get(x) or self.parse(x)}
        pb = {parser_of(x.args[0]) for t in [rd] + workers for x in t[2].events if self.get(x) or self.parse(x)}
        ck.ob("same:parser", len(pa | pb) == 1 and None not in pa | pb, f"serial and parallel training do not use the same parser: {sorted(map(str, pa ^ pb))[:2]}")
        a = self.treatment(em, lambda x: self.parse(x))
        b = self.treatment(self.el, lambda x: x.kind == "call" and x in receives(self.el))
        ck.ob("same:treatment", a == b, f"an example is not treated the same in serial and parallel training: {sorted(a ^ b)[:4]}")
        ck.count("calls compared between serial and parallel training", len(a))

    def treatment(self, e, start):
        out = set()
        src = [x for x in e.events if start(x)]
        nextone = lambda y: self.get(y) or y in src or y.kind == "call" and RECV.search(y.name)
        for x in src:
            for y in q.walk(e, x, nextone)[0]:
                if y.kind == "call" and y.callee and y.xn is not None and loops(e, y, x):
                    pth = y.callee["path"]
                    if pth.startswith(("reductionml_core::", "serde_json")) or re.search(r"(write_fmt|write_all|flush)$", pth):
                        if not self.get(y) and not self.parse(y) and "Pool::" not in y.name:
                            out.add(y.name)
        return out


def loops(e, y, x):
    """y lies on the way from x back to x"""
    k = ("loop", id(e), id(x))
    c = loops.__dict__.setdefault("c", {})
    if k not in c:
        # nodes from which x can be reached
        preds = {}
        for n in e.nodes:
            for m, lab in n.succ:
                preds.setdefault(m, []).append(n)
        seen = {x.xn}
        st = [x.xn]
        while st:
            for n in preds.get(st.pop(), ()):
                if n not in seen:
                    seen.add(n)
                    st.append(n)
        c[k] = seen
    return y.xn in c[k]


# ------------------------------------------------------------------ terms
def chan(t):
    """the channel an endpoint belongs to"""
    for s in subterms(t):
        if s.op == "call" and CHAN.search(s.a[0]):
            return s
    return None


def send_end(t, ch):
    return any(s.op == "f" and s.a[0] is ch and s.a[1] == "0" for s in subterms(t))


def owned(p, clo, s):
    """captured by value, so that it dies with the thread at the latest"""
    b = p.bodies[clo.a[0]]
    ty = b.lty(1).strip()
    ups = ty.a or ()
    return any(obj(c) is s and getattr(u, "k", "") == "adt" for c, u in zip(clo.a[1], ups))


def recv_end(t, ch):
    t = obj(t)
    if t.op == "call" and (t.a[0] == "iter" or t.a[0].endswith("into_iter")) and t.a[1]:
        t = obj(t.a[1][0])
    return t.op == "f" and t.a[0] is ch and t.a[1] == "1"


def obj(t):
    """the object behind clones, borrows and states after calls"""
    while True:
        if t.op == "post":
            c, i = t.a[0], t.a[1]
            if c.op == "call" and isinstance(i, int) and i < len(c.a[1]):
                t = c.a[1][i]
                continue
        if t.op == "call" and t.a[1] and re.search(r"(^|::)(clone|deref|as_ref|borrow)$", t.a[0]):
            t = t.a[1][0]
            continue
        return t


def addr_has(e, r, x):
    return isinstance(r, Term) and any(s is x for s in c06.deep(e, r)) or r.op == "ref" and isinstance(r.a[0], tuple) and any(isinstance(z, Term) and x in set(c06.deep(e, z)) for z in r.a[0])


def receives(e):
    out = []
    for x in e.events:
        if x.kind != "call" or x.ret is None:
            continue
        if RECV.search(x.name):
            out.append(x)
        elif x.name.endswith("Iterator::next") and chan(x.args[0]) is not None:
            out.append(x)
    return out


def is_edge(e, lab, ret, vs):
    c, v = lab
    if not isinstance(c, Term):
        return False
    if c.op == "discr" and v in vs:
        x = c.a[0]
        while True:
            if x is ret:
                return True
            if x.op == "vf":
                x = x.a[0]
            elif x.op == "call" and x.a[1] and re.search(r"(branch|map_err|with_context|context|ok|transpose|into_result)$", x.a[0]):
                x = x.a[1][0]
            elif x.op == "phi":
                ins = e.phi_in.get(x) or []
                ins = set(ins.values() if isinstance(ins, dict) else ins)
                return any(z is not x and z.op != "phi" and is_edge(e, (mk("discr", z), v), ret, vs) for z in ins)
            else:
                return False
    if c.op == "call" and c.a[1] and re.search(r"::(is_ok|is_some|is_err|is_none)$", c.a[0]):
        pos = c.a[0].endswith(("is_ok", "is_some")) == bool(v)
        return is_edge(e, (mk("discr", c.a[1][0]), "Some"), ret, ("Some",)) and any((w in ("Some", "Ok")) == pos for w in vs)
    return False


def edges(e, ret, vs):
    return [y for n in e.nodes for y, lab in n.succ if lab is not None and isinstance(lab[0], Term) and is_edge(e, lab, ret, vs)]


def failed_send(e, lab, sends):
    return any(is_edge(e, lab, s.ret, ("Err", "Break")) for s in sends)


def walk_from(e, starts, stop_ev=None, stop_edge=None, skip=None, block=()):
    seen = set(starts)
    st = list(starts)
    out = []
    while st:
        n = st.pop()
        evs = n.events
        if skip is not None and n is skip.xn:
            evs = evs[skip.i + 1:]
        stop = False
        for x in evs:
            if stop_ev is not None and stop_ev(x):
                stop = True
                break
            out.append(x)
        if stop:
            continue
        for y, lab in n.succ:
            if stop_edge is not None and lab is not None and isinstance(lab[0], Term) and stop_edge(lab):
                continue
            if y not in seen and (n, y) not in block:
                seen.add(y)
                st.append(y)
    return out


def alike(a, b):
    return a is b or a.op == "phi" and b.op == "phi" and re.sub(r"^phi\d+", "", pp(a)) == re.sub(r"^phi\d+", "", pp(b))


def parser_of(t):
    return re.sub(r"#[\d.]+|phi\d+", "", pp(obj(t)))


def failing(e):
    """control-flow edges on which the value returned in the end becomes an error"""
    if hasattr(e, "_failing"):
        return e._failing
    out = set()
    seen = set()
    st = [x.args[0] for x in e.events if x.kind == "ret"]
    while st:
        t = st.pop()
        if t.op != "phi" or t in seen:
            continue
        seen.add(t)
        n = q.node_of(e, t.a[0])
        for m, v in q.phi_ins(e, t):
            if c08.fails(v):
                out.add((m, n))
            elif v.op == "phi":
                st.append(v)
    e._failing = out
    return out


def good_returns(e, starts, stop_edge=None, stop_ev=None):
    """returns that can carry success, reached from `starts`"""
    out = walk_from(e, starts, stop_ev=stop_ev, stop_edge=stop_edge, block=failing(e))
    return [y for y in out if y.kind == "ret" and not c08.fails(y.args[0])]
