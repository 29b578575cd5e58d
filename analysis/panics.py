"""Panic freedom of an explored body: a forward must-analysis of what the branches taken so far say (labels and integer intervals of terms),
used to decide asserts, to find panics unreachable, and to discharge calls of library functions that can panic."""
import collections
import operator
import re
import engine
from engine import Term, mk, pp, K, subterms

# library functions that panic (or end the process) for some arguments; anything else from the standard library is trusted not to
PANICKY = re.compile(
    r"(Index|IndexMut)::index(_mut)?$"
    r"|::(unwrap|expect|unwrap_err|expect_err|unwrap_none|expect_none)$"
    r"|Vec::<T, A>::(remove|insert|swap_remove|drain|splice|split_off|extend_from_within|insert_mut)$"
    r"|String::(remove|insert|insert_str|drain|split_off|replace_range|truncate)$"
    r"|VecDeque::<T, A>::(swap|drain|split_off|insert|range|range_mut|rotate_left|rotate_right|resize)$"
    r"|SmallVec::<A>::(remove|insert|swap_remove|drain|insert_many|insert_from_slice)$"
    r"|<impl \[T\]>::(split_at|split_at_mut|copy_from_slice|clone_from_slice|swap|swap_with_slice|copy_within|chunks|chunks_mut|chunks_exact|chunks_exact_mut|rchunks|rchunks_exact|windows|rotate_left|rotate_right|select_nth_unstable\w*|as_chunks|array_chunks|array_windows|fill_with)$"
    r"|<impl str>::(split_at|split_at_mut|repeat)$|<impl \[T\]>::repeat$"
    r"|RefCell::<T>::(borrow|borrow_mut|replace|swap|take|replace_with)$"
    r"|Iterator::step_by$"
    r"|<impl [iu](8|16|32|64|128|size)>::(pow|abs|div_euclid|rem_euclid|div_ceil|ilog\w*|isqrt|next_multiple_of|next_power_of_two|from_str_radix|strict_\w+|unchecked_\w+)$"
    r"|<impl f(32|64)>::clamp$|Ord::clamp$|<impl char>::(to_digit|from_digit|is_digit)$|char::from_digit$"
    r"|process::(exit|abort)$|intrinsics::abort$|hint::unreachable_unchecked$"
    r"|alloc::layout::|Duration::|Instant::|thread::spawn$|Mutex::<T>::into_inner$"
    r"|iter::traits::iterator::Iterator::(sum|product)$"
    r"|panicking::|begin_panic"
)
FIRST = re.compile(r"^(str::)?(split|rsplit|splitn|rsplitn|split_inclusive)$")
WS = set(" \n\r\t\x0b\x0c")


def utf8(x):
    """number of bytes of a constant pattern"""
    if x.op != "k":
        return None
    v = x.a[0]
    if isinstance(v, tuple) and v and v[0] == "char":
        return len(chr(v[1]).encode())
    if isinstance(v, str):
        return len(v.encode())
    if isinstance(v, tuple) and v and v[0] == "str":
        return len(str(v[1]).encode())
    return None


def is_call(t, *names):
    return t.op == "call" and t.a[0].split("::")[-1] in names


def payload(t):
    """the value inside Some/Ok"""
    return t.a[0] if t.op in ("vf",) and t.a[1] in ("Some", "Ok") else None


def plain(t, d=0):
    """the value of a checked operation that succeeded is the value of the plain operation"""
    p = payload(t)
    if p is not None and is_call(p, "checked_sub", "checked_add", "checked_mul") and len(p.a[1]) == 2:
        return mk("bin", {"checked_sub": "Sub", "checked_add": "Add", "checked_mul": "Mul"}[p.a[0].split("::")[-1]], plain(p.a[1][0], d + 1), plain(p.a[1][1], d + 1))
    if d < 8 and t.op in ("bin", "cast"):
        return mk(t.op, t.a[0], *[plain(x, d + 1) if isinstance(x, Term) else x for x in t.a[1:]])
    if d < 8 and t.op == "call":
        return mk("call", t.a[0], tuple(plain(x, d + 1) for x in t.a[1]), t.a[2])
    return t


def uncast(t):
    while t.op == "cast" and t.a[0] in ("u64", "usize", "u128", "i128"):
        t = t.a[1]
    return t


def powers(t):
    """exponents, when t is a product of powers of two"""
    if t.op == "bin" and t.a[0] == "Mul":
        a, b = powers(t.a[1]), powers(t.a[2])
        return None if a is None or b is None else a + b
    if t.op == "bin" and t.a[0] == "Shl" and const(t.a[1]) == 1:
        return [t.a[2]]
    return None


def const(t):
    return t.a[0] if t.op == "k" and isinstance(t.a[0], int) and not isinstance(t.a[0], bool) else None


FCMP = {"Lt": operator.lt, "Le": operator.le, "Gt": operator.gt, "Ge": operator.ge, "Eq": operator.eq, "Ne": operator.ne}


def floatconst(t):
    if t.op == "k" and isinstance(t.a[0], tuple) and len(t.a[0]) == 2 and t.a[0][0] == "f":
        try:
            return float(t.a[0][1])
        except ValueError:
            return None
    return None


class State:
    __slots__ = ("iv", "lab")

    def __init__(self, iv, lab):
        self.iv = iv
        self.lab = lab


INF = 1 << 70


class Must:
    """what is certain at each node of the exploration"""

    def __init__(self, e, facts=None):
        self.e = e
        self.base = facts or {}
        self.at = {}
        self.edges = {}
        self.solve()

    # -- intervals
    def iv(self, st, t, d=0):
        c = const(t)
        if c is not None:
            return c, c
        p = payload(t)
        if p is not None and is_call(p, "checked_sub", "checked_add", "checked_mul") and len(p.a[1]) == 2:
            op = {"checked_sub": "Sub", "checked_add": "Add", "checked_mul": "Mul"}[p.a[0].split("::")[-1]]
            x = self.iv(st, mk("bin", op, p.a[1][0], p.a[1][1]), d + 1)
            return max(x[0], 0), x[1]  # only used on unsigned values here
        r = st.iv.get(t)
        if r is None:
            r = self.base.get(t)
        lo, hi = r if r else (-INF, INF)
        if t.op == "len":
            n = self.length(st, t.a[0], d)
            lo, hi = max(lo, n[0], 0), min(hi, n[1])
        if is_call(t, "len", "count", "saturating_sub", "saturating_add", "saturating_mul") or t.op == "call" and t.a[0].split("::")[-1].startswith("count_"):
            lo = max(lo, 0)
        if is_call(t, "leading_zeros", "trailing_zeros") and t.a[1]:
            x = self.iv(st, t.a[1][0], d + 1) if d < 14 else (-INF, INF)
            lo, hi = max(lo, 0), min(hi, 64)
            if "lead" in t.a[0] and x[0] >= 0:  # of 64-bit values: callers cast to u64 first
                lo, hi = max(lo, 64 - x[1].bit_length()) if x[1] < 1 << 64 else lo, min(hi, 64 - x[0].bit_length())
        if d < 4 and (t.op in ("f", "vf", "phi", "call", "cast", "param") or t.op == "bin" and t.a[0] == "Sub"):
            for o in self.same(st, t):
                x = self.iv(st, o, d + 3)
                lo, hi = max(lo, x[0]), min(hi, x[1])
        if d < 3 and t.op == "bin" and t.a[0] == "Add":
            mine = self.parts(st, t)
            for k, (_, h) in st.iv.items():
                if k is not t and h < hi and k.op == "bin" and k.a[0] == "Add":
                    rest = self.parts(st, k)
                    if rest is not None and mine is not None and not any(mine[x] > rest[x] for x in mine) and all(self.iv(st, x, d + 3)[0] >= 0 for x in rest):
                        hi = h
        if d < 3 and t.op == "bin" and t.a[0] == "Mul":
            es = powers(t)
            if es is not None and all(self.iv(st, x, d + 1)[0] >= 0 for x in es):
                x = es[0]
                for y in es[1:]:
                    x = mk("bin", "Add", x, y)
                h = self.iv(st, x, d + 1)[1]
                if h <= 64:
                    lo, hi = max(lo, 1), min(hi, 1 << h)
        if d < 14 and t.op == "bin" and t.a[0] in ("Add", "Sub", "Mul", "Shl", "BitAnd", "Rem"):
            a, b = self.iv(st, t.a[1], d + 1), self.iv(st, t.a[2], d + 1)
            f = {"Add": lambda: (a[0] + b[0], a[1] + b[1]), "Sub": lambda: (a[0] - b[1], a[1] - b[0])}.get(t.a[0])
            if f:
                x = f()
                lo, hi = max(lo, x[0]), min(hi, x[1])
            elif t.a[0] == "Mul" and a[0] >= 0 and b[0] >= 0:
                lo, hi = max(lo, a[0] * b[0]), min(hi, a[1] * b[1])
            elif t.a[0] == "Shl" and a[0] >= 0 and 0 <= b[0] and b[1] <= 64:
                lo, hi = max(lo, a[0] << b[0]), min(hi, a[1] << b[1])
            elif t.a[0] == "BitAnd" and (b[0] >= 0 or a[0] >= 0):
                lo, hi = max(lo, 0), min(hi, *(x[1] for x in (a, b) if x[0] >= 0))
            elif t.a[0] == "Rem" and b[0] == b[1] and b[0] > 0 and a[0] >= 0:
                lo, hi = max(lo, 0), min(hi, b[0] - 1)
        if t.op == "call" and t.a[0].endswith("num_cpus::get"):
            lo, hi = max(lo, 1), min(hi, 1 << 20)
        if d < 14 and t.op == "cast":
            w = {"u8": 1 << 8, "u16": 1 << 16, "u32": 1 << 32}.get(engine.CASTFROM.get(t))
            if w and t.a[0] in ("u16", "u32", "u64", "usize", "i64", "u128", "i128") and t.a[0] != engine.CASTFROM[t]:
                if w <= {"u16": 1 << 16, "u32": 1 << 32}.get(t.a[0], 1 << 63):
                    lo, hi = max(lo, 0), min(hi, w - 1)
            if t.a[0] in ("u64", "usize", "u128"):  # as wide as what it came from: 0 only for 0
                lo = max(lo, 0)
                if lo == 0 and self.nonzero(st, t.a[1]):
                    lo = 1
            x = self.iv(st, t.a[1], d + 1)
            if x[0] >= 0 and x[1] < {"u64": 1 << 64, "usize": 1 << 64, "i64": 1 << 63, "u128": 1 << 64, "i128": 1 << 64, "u32": 1 << 32}.get(t.a[0], 1 << 31):
                lo, hi = max(lo, x[0]), min(hi, x[1])
        if d < 4 and t.op == "phi":
            xs = [x for x in self.e.phi_in.get(t) or () if x is not t]
            if xs and all(const(x) is not None for x in xs):
                lo, hi = max(lo, min(const(x) for x in xs)), min(hi, max(const(x) for x in xs))
        return lo, hi

    def same(self, st, t):
        """terms said to be equal to t by the branches taken (widening casts set aside)"""
        out = []
        for c, v in st.lab:
            if c.op == "bin" and (c.a[0] == "Eq" and v is True or c.a[0] == "Ne" and v is False):
                a, b = uncast(c.a[1]), uncast(c.a[2])
                if a is t or c.a[1] is t or plain(a) is t:
                    out.append(b)
                elif b is t or c.a[2] is t or plain(b) is t:
                    out.append(a)
        return [x for x in out if isint(x) and x is not t]

    def nonzero(self, st, t):
        return any(c.op == "bin" and (c.a[0] == "Eq" and v is False or c.a[0] == "Ne" and v is True) and (c.a[1] is t and const(c.a[2]) == 0 or c.a[2] is t and const(c.a[1]) == 0) for c, v in st.lab)

    def parts(self, st, t):
        """the summands of a sum, one name for terms known to be equal"""
        out, todo = collections.Counter(), [t]
        while todo:
            x = uncast(todo.pop())
            if x.op == "bin" and x.a[0] == "Add":
                todo += [x.a[1], x.a[2]]
            elif const(x) != 0:
                x = plain(x)
                out[min([x] + [plain(y) for y in self.same(st, x)], key=str)] += 1
        return out

    def length(self, st, x, d=0):
        if empty(x):
            return 0, 0
        if x.op == "arr":
            return len(x.a[0]), len(x.a[0])
        if x.op == "push" and d < 20:
            a = self.iv(st, mk("len", x.a[0]), d + 1)
            return a[0] + 1, a[1] + 1
        if x.op == "k" and isinstance(x.a[0], tuple) and x.a[0] and x.a[0][0] == "str":
            n = len(str(x.a[0][1]).encode())
            return n, n
        return 0, 1 << 62

    # -- labels
    def refine(self, st, lab):
        """state after taking an edge, or None when it cannot be taken"""
        c, v = lab
        if not isinstance(c, Term):
            return st
        for (c2, v2) in st.lab:
            if c2 is c and v2 != v and type(v) is type(v2) and not isinstance(v, tuple):
                return None
        if self.impossible(st, c, v):
            return None
        r = in_range(c) if v in (True, False) else None
        if r is not None:
            a, x, b, op = r
            if v:
                for l in (mk("bin", "Le", a, x), mk("bin", op, x, b)):
                    st = self.refine(st, (l, True))
                    if st is None:
                        return None
            elif self.iv(st, x)[0] >= self.iv(st, a)[1]:
                st = self.refine(st, (mk("bin", op, x, b), False))
                if st is None:
                    return None
        iv = dict(st.iv)
        lb = st.lab | {lab}
        if v is True or v is False:
            if c.op == "bin" and c.a[0] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                op = c.a[0] if v else {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt", "Eq": "Ne", "Ne": "Eq"}[c.a[0]]
                for a, b, o in ((c.a[1], c.a[2], op), (c.a[2], c.a[1], {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op))):
                    if const(a) is not None:
                        continue
                    if not isint(b):
                        continue
                    lo, hi = self.iv(st, a)
                    bl, bh = self.iv(st, b)
                    if o == "Lt":
                        hi = min(hi, bh - 1)
                    elif o == "Le":
                        hi = min(hi, bh)
                    elif o == "Gt":
                        lo = max(lo, bl + 1)
                    elif o == "Ge":
                        lo = max(lo, bl)
                    elif o == "Eq":
                        lo, hi = max(lo, bl), min(hi, bh)
                    elif o == "Ne" and bl == bh:
                        lo, hi = (lo + 1 if lo == bl else lo), (hi - 1 if hi == bl else hi)
                    if lo > hi:
                        return None
                    if (lo, hi) != (-INF, INF):
                        iv[a] = (lo, hi)
                        self.spread(st, iv, a, hi)
                        for t in [t for t in iv if t not in st.iv or st.iv[t] != iv[t]]:
                            u = plain(t)
                            if u is not t:
                                iv[u] = iv[t]
        elif isinstance(v, int):
            lo, hi = self.iv(st, c)
            if c.op != "discr":
                if v < lo or v > hi:
                    return None
                iv[c] = (v, v)
        elif isinstance(v, tuple) and v and v[0] == "ne" and c.op != "discr":
            lo, hi = self.iv(st, c)
            for x in sorted(x for x in v[1] if isinstance(x, int)):
                if x == lo:
                    lo += 1
            for x in sorted((x for x in v[1] if isinstance(x, int)), reverse=True):
                if x == hi:
                    hi -= 1
            if lo > hi:
                return None
            iv[c] = (lo, hi)
        elif c.op == "discr" and v == "Some":
            t = c.a[0]
            if is_call(t, "first", "last", "first_mut", "last_mut", "pop", "split_first", "split_last") and t.a[1]:
                self.atleast(st, iv, mk("len", deref(t.a[1][0])), 1)
            if is_call(t, "checked_sub") and len(t.a[1]) == 2 and const(t.a[1][0]) is None:
                lo, hi = self.iv(st, t.a[1][0])
                iv[t.a[1][0]] = (max(lo, self.iv(st, t.a[1][1])[0], 0), hi)
            if is_call(t, "get", "get_mut", "nth") and len(t.a[1]) == 2:
                i = self.iv(st, t.a[1][1])
                if i[0] >= 0:
                    self.atleast(st, iv, mk("len", deref(t.a[1][0])), i[0] + 1)
        return State(iv, lb)

    def spread(self, st, iv, t, hi, d=0):
        """a bound on a sum of natural numbers bounds each of them; a bound on a widened value bounds the value"""
        if d > 4:
            return
        if t.op == "bin" and t.a[0] == "Add":
            x, y = self.iv(st, t.a[1]), self.iv(st, t.a[2])
            if x[0] >= 0 and y[0] >= 0:
                for u, a, b in ((t.a[1], x, y), (t.a[2], y, x)):
                    if const(u) is None:
                        iv[u] = (a[0], min(a[1], hi - b[0]))
                        self.spread(st, iv, u, hi - b[0], d + 1)
        if t.op == "cast" and isinstance(t.a[1], Term) and self.iv(st, t.a[1])[0] >= 0:
            u = t.a[1]
            a = self.iv(st, u)
            if const(u) is None:
                iv[u] = (a[0], min(a[1], hi))
                self.spread(st, iv, u, hi, d + 1)

    def atleast(self, st, iv, t, n):
        lo, hi = self.iv(st, t)
        iv[t] = (max(lo, n), hi)

    def impossible(self, st, c, v):
        if c.op == "discr" and v == "None" and is_call(c.a[0], "next", "next_back") and c.a[0].a[1]:
            it = deref(c.a[0].a[1][0])
            if it.op == "call" and FIRST.match(it.a[0]):
                return True  # a split always has a first item
            if it.op == "call" and it.a[0].split("::")[-1] in ("split", "rsplit", "splitn", "rsplitn", "split_inclusive"):
                n = it.a[1][1] if it.a[0].endswith("splitn") and len(it.a[1]) > 1 else None
                return n is None or (const(n) or 0) > 0
            if it.op == "call" and it.a[0].split("::")[-1] in ("chars", "bytes", "char_indices", "iter") and it.a[1] and self.filled(st, deref(it.a[1][0])):
                return True
        if v is True or v is False:
            b = self.decide(st, c)
            return b is not None and b != v
        return False

    def filled(self, st, x):
        """said not to be empty"""
        return self.iv(st, mk("len", x))[0] >= 1 or any(
            v is False and (c.op == "bin" and c.a[0] == "Eq" and uncast(c.a[1]) in (x, mk("len", x)) or is_call(c, "is_empty") and deref(c.a[1][0]) is x) for c, v in st.lab
        ) or any(v is False and c.op == "bin" and c.a[0] == "Eq" and const(c.a[2]) == 0 and c.a[1].op in ("len", "call") and x in c.a[1].a[:1] for c, v in st.lab)

    def decide(self, st, c):
        """truth of a condition, or None"""
        if (c, True) in st.lab:
            return True
        if (c, False) in st.lab:
            return False
        if c.op == "k" and isinstance(c.a[0], bool):
            return c.a[0]
        if c.op == "un" and c.a[0] == "Not":
            r = self.decide(st, c.a[1])
            return None if r is None else not r
        if c.op == "bin" and c.a[0] in FCMP and floatconst(c.a[1]) is not None and floatconst(c.a[2]) is not None:
            return FCMP[c.a[0]](floatconst(c.a[1]), floatconst(c.a[2]))
        if c.op == "bin" and c.a[0] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") and isint(c.a[1]) and isint(c.a[2]):
            op, a, b = c.a
            if op in ("Gt", "Ge"):
                op, a, b = {"Gt": "Lt", "Ge": "Le"}[op], b, a
            x, y = self.iv(st, a), self.iv(st, b)
            if op in ("Eq", "Ne"):
                r = None
                if a is b or self.equal(a, b):
                    r = True
                elif x[0] == x[1] == y[0] == y[1]:
                    r = True
                elif x[1] < y[0] or y[1] < x[0]:
                    r = False
                return r if r is None or op == "Eq" else not r
            if op == "Lt":
                if x[1] < y[0] or self.less(st, a, b):
                    return True
                if x[0] >= y[1] or self.le(st, b, a):
                    return False
            else:
                if x[1] <= y[0] or self.le(st, a, b):
                    return True
                if x[0] > y[1] or self.less(st, b, a):
                    return False
        return None

    def equal(self, a, b):
        if a.op == "len" and b.op == "len":
            x, y = size(self.e, a.a[0]), size(self.e, b.a[0])
            return x is not None and x == y
        return False

    def rel(self, st, a, b):
        """relations between two terms said by the labels"""
        out = set()
        for c, v in st.lab:
            if c.op == "bin" and (v is True or v is False) and c.a[0] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                op = c.a[0] if v else {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt", "Eq": "Ne", "Ne": "Eq"}[c.a[0]]
                if c.a[1] is a and c.a[2] is b:
                    out.add(op)
                elif c.a[1] is b and c.a[2] is a:
                    out.add({"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op))
        return out

    def less(self, st, a, b):
        r = self.rel(st, a, b)
        if "Lt" in r or ("Le" in r and "Ne" in r):
            return True
        end = range_end(a)
        if end is not None and (end is b or self.le(st, end, b)):
            return True  # an item of a range is below its end
        if a.op == "bin" and a.a[0] == "Sub" and (const(a.a[2]) or 0) > 0 and self.le(st, a.a[1], b) and self.iv(st, a.a[1])[0] >= const(a.a[2]):
            return True
        pos = enumerated(self.e, a)
        return pos is not None and b.op == "len" and pos is b.a[0]

    def le(self, st, a, b):
        if a is b or "Le" in self.rel(st, a, b) or "Eq" in self.rel(st, a, b) or "Lt" in self.rel(st, a, b):
            return True
        if is_call(a, "min") and any(x is b for x in a.a[1]):
            return True
        if is_call(b, "max") and any(x is a for x in b.a[1]):
            return True
        if is_call(a, "saturating_sub") and a.a[1][0] is b:
            return True
        return False

    # -- fixpoint
    def join(self, a, b):
        if a is None:
            return b
        iv = {}
        for t, (l, h) in a.iv.items():
            r = b.iv.get(t)
            if r is not None:
                l, h = min(l, r[0]), max(h, r[1])
                if (l, h) != (-INF, INF):
                    iv[t] = (l, h)
        return State(iv, a.lab & b.lab)

    def solve(self):
        start = self.e.start
        self.at = {start: State({}, frozenset())}
        work = [start]
        inw = {start}
        n = 0
        while work:
            x = work.pop(0)
            inw.discard(x)
            st = self.at[x]
            for c, v in asserted(x):
                s2 = self.refine(st, (c, v))
                if s2 is None:
                    st = None
                    break
                st = s2
            if st is None:
                continue
            for y, lab in x.succ:
                s = st
                if lab is not None and isinstance(lab[0], Term):
                    s = self.refine(st, lab)
                    if s is None:
                        continue
                old = self.at.get(y)
                new = self.join(old, s)
                if old is None or new.lab != old.lab or new.iv != old.iv:
                    self.at[y] = new
                    if y not in inw:
                        inw.add(y)
                        work.append(y)
            n += 1
            if n > 400000:
                break

    def before(self, ev):
        """state just before an event, or None when it cannot happen"""
        st = self.at.get(ev.xn)
        if st is None:
            return None
        for x in ev.xn.events:
            if x is ev:
                break
            if x.kind == "assert" and x.args and isinstance(x.args[0], Term):
                st = self.refine(st, (x.args[0], True)) or st
        return st


def leaves(e, t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            st += list(e.phi_in.get(x) or ())
        else:
            out.append(x)
    return out


def boundary(m, st, s, t, d=0):
    """t is a position in the text s at which a character starts (or its end)"""
    if d > 8:
        return False
    c = const(t)
    if c == 0:
        return True
    if t.op == "len" or is_call(t, "len"):
        x = deref(t.a[0] if t.op == "len" else t.a[1][0])
        return x is s or prefix(x, s)
    if c is not None and c > 0:
        return any(v is True and is_call(a, "starts_with") and deref(a.a[1][0]) is s and (utf8(a.a[1][1]) == c) for a, v in st.lab) or any(
            v == "Some" and a.op == "discr" and is_call(a.a[0], "strip_prefix") and deref(a.a[0].a[1][0]) is s and utf8(a.a[0].a[1][1]) == c for a, v in st.lab
        )
    x = payload(t)
    if x is not None and is_call(x, "find", "rfind") and deref(x.a[1][0]) is s:
        return True
    if t.op == "bin" and t.a[0] == "Add":
        for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            x = payload(a)
            if x is not None and is_call(x, "find", "rfind") and deref(x.a[1][0]) is s and const(b) is not None and utf8(x.a[1][1]) == const(b):
                return True
    if is_call(t, "unwrap_or") and len(t.a[1]) == 2:
        a = t.a[1][0]
        return is_call(a, "find", "rfind") and deref(a.a[1][0]) is s and boundary(m, st, s, t.a[1][1], d + 1)
    if t.op == "phi":
        ls = leaves(m.e, t)
        return bool(ls) and all(boundary(m, st, s, x, d + 1) for x in ls)
    if t.op in ("f", "tup") or x is not None:
        for y in walk_terms(t):
            if is_call(y, "next", "next_back") and y.a[1]:
                it = deref(y.a[1][0])
                if is_call(it, "char_indices", "match_indices") and deref(it.a[1][0]) is s and t.op == "f" and t.a[1] == "0":
                    return True
    return False


def prefix(x, s):
    return is_call(x, "trim_end", "trim_end_matches", "trim_ascii_end", "trim_right") and deref(x.a[1][0]) is s


def ranged(m, st, s, r, text=False):
    """a range of text or of a slice lies inside it"""
    if r.op != "agg":
        return False
    f = dict(zip(r.a[2], r.a[3]))
    nm = r.a[0].split("::")[-1]
    a, b = f.get("start"), f.get("end")
    ok = lambda t: boundary(m, st, s, t) or m.iv(st, t)[0] >= 0 and m.iv(st, t)[1] <= m.iv(st, mk("len", s))[0] and (not text or ascii_only(st, s))
    if nm == "RangeFull":
        return True
    if nm in ("RangeFrom", "RangeTo"):
        return ok(a if a is not None else b)
    if nm == "Range":
        return ok(a) and ok(b) and (const(a) == 0 or b.op == "len" or is_call(b, "len") or m.iv(st, a)[1] <= m.iv(st, b)[0] or m.le(st, a, b))
    return False


def ascii_only(st, s):
    return any(v is True and is_call(c, "is_ascii") and deref(c.a[1][0]) is s for c, v in st.lab)


def texts(x):
    """the operation is on text, whose positions have to be those of characters"""
    f = getattr(x, "callee", None)
    a = [i for i in (f.get("a") or ()) if isinstance(i, int)] if isinstance(f, dict) else []
    return any(x.ctx.body.types[i].strip().s in ("str", "alloc::string::String") for i in a[:1]) or bool(re.search(r"impl str>|String::", x.path or x.name))


def discharged(m, x, width=None):
    """why the event cannot panic, or None"""
    st = m.before(x)
    if st is None:
        return "never reached"
    if x.kind == "assert":
        if m.decide(st, x.args[0]) is True:
            return "implied by the branches taken"
        if "/rustlib/" in x.span or "/library/" in x.span:
            return "count kept by the standard library"
        if x.args[0].op == "ovfbit" and len(x.args) == 3:
            return arithmetic(m, st, x, width)
        return None
    if x.kind == "call":
        n = (x.path or x.name).split("::")[-1]
        a = [deref(t) for t in x.args]
        if n in ("index", "index_mut") and len(a) == 2 and a[1].op == "agg" and ranged(m, st, a[0], a[1], texts(x)):
            return "range inside the text"
        if n in ("index", "index_mut") and len(a) == 2 and a[1].op != "agg" and m.decide(st, mk("bin", "Lt", a[1], mk("len", a[0]))) is True:
            return "index below the length"
        if n in ("truncate", "split_off", "split_at", "insert_str") and len(a) >= 2 and boundary(m, st, a[0], a[1]):
            return "position at a character"
        if n in ("split_at", "split_off", "split_at_mut", "drain") and not texts(x) and len(a) >= 2 and isint(a[1]) and m.iv(st, a[1])[0] >= 0 and m.iv(st, a[1])[1] <= m.iv(st, mk("len", a[0]))[0]:
            return "position below the length"
        if n in ("remove", "swap_remove", "insert", "swap") and not texts(x) and len(a) >= 2 and isint(a[1]):
            i = m.iv(st, a[1])
            ln = m.iv(st, mk("len", a[0]))
            if i[0] >= 0 and (i[1] <= ln[0] if n == "insert" else i[1] < ln[0] or m.decide(st, mk("bin", "Lt", a[1], mk("len", a[0]))) is True):
                return "position below the length"
        if n in ("chunks", "chunks_exact", "windows", "chunks_mut", "chunks_exact_mut", "rchunks", "step_by") and len(a) >= 2 and m.iv(st, a[1])[0] >= 1:
            return "positive size"
        if n == "clamp" and len(a) == 3:
            lo, hi = fconst(a[1]), fconst(a[2])
            if lo is not None and hi is not None and lo <= hi:
                return "ordered bounds"
            if m.iv(st, a[1])[1] <= m.iv(st, a[2])[0]:
                return "ordered bounds"
        if n in ("to_digit", "is_digit", "from_digit", "from_str_radix") and a and const(a[-1]) is not None and 2 <= const(a[-1]) <= 36:
            return "radix"
        if n in ("sum", "product"):
            return "trusted"
        if "Instant" in (x.path or "") or "Duration" in (x.path or ""):
            return "clock readings"
    return None


def fconst(t):
    if t.op == "k":
        v = t.a[0]
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return float(v)
        if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], (int, float)):
            return float(v[1])
    return None


SMALL = ("u8", "i8", "u16", "i16")


def bits(width):
    return {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767), "u32": (0, 2**32 - 1), "i32": (-(2**31), 2**31 - 1), "u64": (0, 2**64 - 1), "i64": (-(2**63), 2**63 - 1), "usize": (0, 2**64 - 1), "isize": (-(2**63), 2**63 - 1)}.get(width)


def arithmetic(m, st, x, width):
    a, b = x.args[1], x.args[2]
    t = x.args[0].a[0]
    w = bits(width)
    if w:
        lo, hi = m.iv(st, t)
        if lo >= w[0] and hi <= w[1]:
            return "fits"
    op = x.path
    if op == "Add" and width not in SMALL:
        for p, c in ((a, b), (b, a)):
            if const(c) is not None and 0 <= const(c) <= 16 and counting(m.e, p):
                return "counts items of the input"
        if lengthlike(m.e, a) and lengthlike(m.e, b):
            return "sum of lengths"
    if op == "Sub" and (width or "u").startswith("u"):
        if m.le(st, b, a) or m.iv(st, a)[0] >= m.iv(st, b)[1]:
            return "not below zero"
    return None


def counting(e, p):
    """starts at constants and grows by small constants"""
    if lengthlike(e, p):
        return True
    seen, st = set(), [p]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if len(seen) > 300:
            return False
        if t.op == "phi":
            st += list(e.phi_in.get(t) or ())
        elif t.op == "bin" and t.a[0] == "Add" and any(const(c) is not None and 0 <= const(c) <= 16 for c in (t.a[1], t.a[2])):
            st.append(t.a[1] if const(t.a[1]) is None else t.a[2])
        elif const(t) is None or not 0 <= const(t) < 1 << 16:
            return False
    return True


def lengthlike(e, t, d=0):
    if const(t) is not None:
        return 0 <= const(t) < 1 << 32
    if t.op == "len" or is_call(t, "len", "count", "capacity"):
        return True
    if t.op == "bin" and t.a[0] == "Add" and d < 6:
        return lengthlike(e, t.a[1], d + 1) and lengthlike(e, t.a[2], d + 1)
    x = payload(t)
    return x is not None and is_call(x, "find", "rfind", "position")


def width(x):
    """type of the operands of a checked operation (the narrowest when several share the place)"""
    ws = set()
    b = x.ctx.body
    for bb in b.bb:
        t = bb["t"]
        if t.get("t") == "assert" and bb.get("sp") == x.span:
            l = place_local(t.get("o"))
            ty = b.lty(l) if l is not None else None
            mm = re.match(r"\((\w+), bool\)$", (ty.s if ty is not None else "") or "")
            if mm:
                ws.add(mm.group(1))
    return min(ws, key=lambda w: (bits(w) or (0, 1 << 70))[1]) if ws else None


def place_local(o):
    if isinstance(o, dict):
        for k in ("m", "c", "p"):
            if k in o and isinstance(o[k], list) and o[k]:
                return o[k][0]
    return None


def asserted(n):
    return [(x.args[0], True) for x in n.events if x.kind == "assert" and x.args and isinstance(x.args[0], Term) and x.args[0].op == "bin"]


def isint(t):
    if t.op == "k":
        return const(t) is not None
    return t.op not in ("agg", "tup", "clo", "discr")


def deref(t):
    while t.op in ("ref", "cref") and isinstance(t.a[-1], Term):
        t = t.a[-1]
    return t


def in_range(c):
    """(start, value, end, Lt|Le) of a test that a value lies in a range"""
    if is_call(c, "contains") and len(c.a[1]) == 2:
        r = deref(c.a[1][0])
        if r.op == "agg" and r.a[0].split("::")[-1] in ("Range", "RangeInclusive"):
            f = dict(zip(r.a[2], r.a[3]))
            if isint(f["start"]) and isint(f["end"]):
                return f["start"], deref(c.a[1][1]), f["end"], "Lt" if r.a[0].endswith("Range") else "Le"
    return None


def range_end(a):
    """a is an item of start..end"""
    x = payload(a)
    if x is not None and is_call(x, "next", "next_back") and x.a[1]:
        r = deref(x.a[1][0])
        if r.op == "agg" and str(r.a[0]).endswith("Range"):
            d = dict(zip(r.a[2], r.a[3])) if len(r.a) > 3 else {}
            return d.get("end")
    return None


def enumerated(e, a):
    """collection whose positions a runs over"""
    return None


def size(e, x, d=0):
    """symbolic number of elements of a collection or iterator: (sorted multiset of atoms)"""
    if d > 25:
        return None
    x = deref(x)
    if empty(x):
        return ()
    if x.op == "push":
        a = size(e, x.a[0], d + 1)
        return None if a is None else tuple(sorted(a + (("1",),), key=str))
    if x.op == "extend":
        a, b = size(e, x.a[0], d + 1), size(e, x.a[1], d + 1)
        return None if a is None or b is None else tuple(sorted(a + b, key=str))
    if x.op == "call":
        n = x.a[0].split("::")[-1]
        if n in ("extend", "extend_from_slice") and len(x.a[1]) >= 2:
            a, b = size(e, x.a[1][0], d + 1), size(e, x.a[1][1], d + 1)
            return None if a is None or b is None else tuple(sorted(a + b, key=str))
        if n in ("iter", "into_iter", "iter_mut", "rev", "map", "enumerate", "copied", "cloned", "by_ref", "to_vec", "collect", "from_iter", "as_slice", "deref") and x.a[1]:
            return size(e, x.a[1][0], d + 1)
    if x.op == "agg":
        nm = str(x.a[0]).split("::")[-1]
        f = dict(zip(x.a[2], x.a[3])) if len(x.a) > 3 else {}
        if nm in ("Map", "Enumerate", "Rev", "Copied", "Cloned", "Inspect", "GenericShunt") and "iter" in f:
            return size(e, f["iter"], d + 1)
        if nm == "Range" and const(f.get("start", K(1))) == 0:
            t = f["end"]
            while t.op == "cast":
                t = t.a[1]
            return size(e, t.a[0], d + 1) if t.op == "len" else (("n", t.id),)
    if x.op == "phi":
        y = collected(e, x)
        if y is not None:
            return size(e, y, d + 1)
    f = sibling(x)
    return (f,)


PARALLEL = ("feature_indices", "feature_values")


def empty(x):
    return x.op == "[]" or x.op == "call" and x.a[0] == "[]" and not x.a[1]


def sibling(x):
    """parallel vectors of one object are equally long (the object's invariant, kept by every function that lengthens them)"""
    if x.op == "f" and x.a[1] in PARALLEL:
        return ("sib", x.a[0].id)
    if x.op == "phi" and len(x.a[1]) > 1 and x.a[1][-1] in tuple(("f", n) for n in PARALLEL):
        return ("sib", x.a[0], x.a[1][:-1])
    return ("t", x.id)


def collected(e, ph):
    """the source of a vector to which a loop pushes once for each item taken"""
    vals = [v for v in e.phi_in.get(ph) or () if v is not ph]
    init = [v for v in vals if empty(v)]
    rest = [v for v in vals if v not in init]
    if not init or not rest:
        return None
    src = set()
    for v in rest:
        if v.op != "push" or v.a[0] is not ph:
            return None
        its = [t for t in walk_terms(v.a[1]) if is_call(t, "next") and t.a[1]]
        if not its:
            return None
        src.add(deref(its[0].a[1][0]))
    if len(src) != 1:
        return None
    x = src.pop()
    if x.op == "phi":  # the iterator itself is what the loop carries
        ys = {y for y in e.phi_in.get(x) or () if y is not x and not any(z is x for z in walk_terms(y))}
        return ys.pop() if len(ys) == 1 else None
    return x


def walk_terms(t):
    from engine import subterms

    return subterms(t)
