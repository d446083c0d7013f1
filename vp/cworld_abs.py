# -*- coding: utf-8 -*-
"""Worlds of the abstraction functions: what they emit, compared with their
definition.

AbsWorld   base_abstraction over texts of any length: characters are revealed
           as classes, a reference transducer runs in step, and the symbols the
           code appends to its buffer are matched against the reference.
MergeWorld c_merge_with_quotechar over every symbol string of a given length.
"""
from .cinterp import Unsupported, Violation, Fork, Terminal, Prune, UNDEF, trace_list
from .cz import ZInterp, ZState, Anchor, PENDING, BIG, isnum, expr, eadd
from .cworld_mem import MemWorld, FuncDriver, W
from .zone import Rel

CODE = {"CR": 13, "LF": 10, "NUL": 0}
CLASSES = ("D", "Q", "E", "CR", "LF", "NUL", "O")


class X:
    """reference transducer and what was revealed"""

    def __init__(self):
        self.have = {}          # role -> present
        self.src = None         # the text object
        self.count = 0          # characters revealed
        self.last = None        # class of the last one
        self.esc = 0
        self.ref = None         # last symbol of the reference
        self.out = None         # last symbol of the code
        self.queue = ()         # symbols of the reference the code has not emitted
        self.buf = None         # the buffer the symbols go to

    def copy(self):
        x = X.__new__(X)
        x.__dict__.update(self.__dict__)
        return x

    def canon(self, conv):
        x = self.copy()
        k, x.count = conv(self.count, True)
        s = conv(("o", self.src), False)[0] if self.src else None
        return (tuple(sorted(self.have.items())), s, k, self.last, self.esc, self.ref, self.out, self.queue), x


class AW(W):
    pass


class AbsWorld(MemWorld):
    ROLES = ("S", "D", "Q", "E")

    def __init__(self, mod, driver):
        MemWorld.__init__(self, mod, driver, alloc_fails=False)

    def fallible(self, st, ok, fail=0, exc=None, label="succeeds", flabel=None):
        raise Fork([(label, lambda s: setattr(s, "forced", ("val", ok(s))))])

    def a_vp_READY(self, it, st, a, ins):
        self.string(it, st, a[0], ins, "PyUnicode_READY")
        return 0

    def dropped(self, it, st, o):
        pass

    def parse_args(self, it, st, fmt, kw, dst, ins):
        spec = [c for c in fmt.split(":")[0].split(";")[0] if c not in "|$"]
        if len(spec) != len(dst) or len(dst) != len(self.ROLES):
            raise Anchor("%s takes other arguments" % self.driver.name)
        alts = []

        def give(choice):
            def fn(s):
                x = s.w.x = s.w.x.copy()
                x.have = dict(zip("DQE", choice))
                for r, p in zip(self.ROLES, dst):
                    if r == "S":
                        v = self.new(s, "any", ref=0, base=1, isu=1, role="S")
                        s.mem[v[1]]["len"] = it.var(s, 0, BIG)
                        x.src = v[1]
                    else:
                        c = x.have[r]
                        if c == "None":
                            v = ("g", "_Py_NoneStruct")
                            if self.mod.globals.get("_Py_NoneStruct") is None:
                                raise Unsupported("None", ins)
                        else:
                            v = self.new(s, "any", ref=0, base=1, isu=1, role=r)
                            s.mem[v[1]]["len"] = 1 if c == "set" else 0
                    it.store(s, p, v, None, ins)
                s.forced = ("val", 1)
            return fn
        for d in ("set", "empty"):
            for q in ("set", "empty"):
                for e in ("set", "empty"):
                    alts.append(("delimiter %s, quotechar %s, escapechar %s" % (d, q, e), give((d, q, e))))
        if self.mod.globals.get("_Py_NoneStruct") is not None:
            alts.append(("all three None", give(("None", "None", "None"))))
        raise Fork(alts)

    # ------------------------------------------------------------- input
    def char(self, it, st, o, idx, ins):
        d = st.mem[o]
        if d.get("role") in ("D", "Q", "E"):
            return ("dch", d["role"])
        x = st.w.x
        if o != x.src:
            raise Unsupported("characters of another string", ins)
        if self.same(it, st, idx, it.add(st, x.count, -1, ins)):
            return ("chr", x.last)
        if not self.same(it, st, idx, x.count):
            hi = it.upper(st, eadd(expr(idx), expr(x.count), -1))
            if hi is not None and hi < 0:
                raise Unsupported("an earlier character of the text is read again", ins)
            raise Violation("order", "a character of the text is read out of turn", ins)
        # a lookahead may be read once more later: reveal it now
        alts = []
        for c in CLASSES:
            if c in x.have and x.have[c] != "set":
                continue

            def fn(s, c=c):
                y = s.w.x = s.w.x.copy()
                y.count = it.add(s, y.count, 1, ins)
                y.last = c
                self.refstep(y, c, ins)
            alts.append(("next character %s" % c, fn))
        self.count_("characters")
        raise Fork(alts)

    def count_(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    @staticmethod
    def refstep(y, c, ins):
        def emit(s, once=False):
            if s == "C" and y.ref == "C":
                return
            if once and y.ref == s:
                return
            y.ref = s
            y.queue = y.queue + (s,)
        if c in ("CR", "LF"):
            emit("R", True)
        elif c in ("D", "Q"):
            emit("C" if y.esc else c)
            y.esc = 0
        elif c == "E":
            if y.esc:
                emit("C")
                y.esc = 0
            else:
                y.esc = 1
        else:
            emit("C")
            y.esc = 0
        if len(y.queue) > 5:
            raise Violation("output", "symbols are missing from the abstraction (%s expected next)" % y.queue[0], ins)

    def compare(self, it, st, pred, a, b, ins):
        for p, q in ((a, b), (b, a)):
            if isinstance(p, tuple) and p[0] in ("chr", "dch"):
                if isinstance(q, tuple) and isnum(q):
                    lo, hi = it.lower(st, expr(q)), it.upper(st, expr(q))
                    if lo is not None and (lo == hi or lo > 0x10ffff):
                        q = lo
                return self.cmpchar(pred, p, q, p is a, ins)
        return MemWorld.compare(self, it, st, pred, a, b, ins)

    def cmpchar(self, pred, p, q, straight, ins):
        eq = None
        if p[0] == "chr" and p[1] in CODE:
            if isinstance(q, int):
                a, b = (CODE[p[1]], q) if straight else (q, CODE[p[1]])
                return {"eq": a == b, "ne": a != b, "ult": a < b, "slt": a < b, "ule": a <= b, "sle": a <= b,
                        "ugt": a > b, "sgt": a > b, "uge": a >= b, "sge": a >= b}[pred]
        if isinstance(q, int):
            if q in (0, 10, 13) or q < 0 or q > 0x10ffff:
                eq = False
                if pred not in ("eq", "ne"):
                    if q == 0:
                        return {"ugt": straight, "uge": straight, "ult": not straight, "ule": not straight}.get(pred)
                    if q > 0x10ffff:
                        return {"ult": straight, "ule": straight, "ugt": not straight, "uge": not straight}.get(pred)
        elif isinstance(q, tuple) and q[0] in ("chr", "dch"):
            if p[1] == q[1] and p[1] == "O":
                eq = True if p is q else None
            else:
                eq = p[1] == q[1]
        if eq is None or pred not in ("eq", "ne"):
            return None
        return eq if pred == "eq" else not eq

    # ------------------------------------------------------------ output
    def byte_store(self, it, st, obj, idx, v, ins):
        d = st.mem[obj]
        n = d.get("tail_i", 0)
        e = eadd(expr(idx), expr(n), -1)
        lo = it.lower(st, e)
        if v == 0 and lo is not None and lo >= 0:
            return                  # cleared memory behind the symbols
        if not self.same(it, st, idx, n):
            if v == 0 and it.upper(st, e) is None or it.upper(st, e) is not None and it.upper(st, e) >= 0 and v == 0:
                raise Unsupported("memory is cleared at an unknown place", ins)
            raise Violation("output", "a symbol is written at another place than behind the last one", ins)
        if not isinstance(v, int) or not 0 < v < 128:
            raise Violation("output", "something that is not a symbol is written to the abstraction", ins)
        d["tail_i"] = it.add(st, n, 1, ins)
        d["tail_v"] = chr(v)
        y = st.w.x = st.w.x.copy()
        s = chr(v)
        self.count_("symbols matched")
        if s == "C" and y.out == "C":
            return
        if not y.queue or y.queue[0] != s:
            raise Violation("output", "the abstraction gets the symbol %s where the definition has %s" % (s, y.queue[0] if y.queue else "none"), ins)
        y.queue = y.queue[1:]
        y.out = s

    def byte_load(self, it, st, obj, idx, ty, ins):
        d = st.mem[obj]
        n = d.get("tail_i", 0)
        if d.get("tail_v") is not None and self.same(it, st, idx, it.add(st, n, -1, ins)):
            return ord(d["tail_v"])
        return ("top", "symbol")

    def content(self, it, st, p, n, ins):
        y = st.w.x
        if y.src is None:
            return
        if not self.same(it, st, y.count, st.mem[y.src]["len"]):
            raise Violation("output", "the abstraction is made before the whole text was read", ins)
        if y.queue:
            raise Violation("output", "the abstraction ends without the symbol %s" % y.queue[0], ins)
        if isinstance(p, tuple) and p[0] == "b":
            if not self.same(it, st, n, st.mem[p[1]].get("tail_i", 0)) or not self.same(it, st, p[2], 0):
                raise Violation("output", "the abstraction is not made of exactly the emitted symbols", ins)
        elif not self.same(it, st, n, 0):
            raise Unsupported("abstraction made from elsewhere", ins)
        st.w.phase = "made"

    def finished(self, it, st, v, ins, cb):
        self.count_("results compared")
        if v == 0:
            raise Violation("output", "no abstraction is made although nothing failed", ins)
        d = st.mem.get(v[1]) if isinstance(v, tuple) and v[0] == "o" else None
        if st.w.phase != "made":
            y = st.w.x
            if not (self.same(it, st, y.count, st.mem[y.src]["len"]) and not y.queue and y.out is None):
                raise Violation("output", "the result is not made from the emitted symbols", ins)
        elif d is None or d.get("tag") != "str":
            raise Violation("output", "the result is not the abstraction that was made", ins)
        raise Terminal()


class AbsDriver(FuncDriver):
    def init(self, world, it):
        st = FuncDriver.init(self, world, it)
        st.w.x = X()
        return st


class PathInterp(ZInterp):
    """every path on its own, nothing is merged"""

    def explore(self, init, max_violations=5):
        work = [init]
        while work:
            st = work.pop()
            self.states += 1
            try:
                self.run(st)
            except Fork as f:
                for n, (label, fn) in enumerate(f.alts):
                    s = st.copy()
                    s.trace = (st.trace, label)
                    if fn(s) is False:
                        continue
                    work.append(s)
            except (Terminal, Prune):
                self.terminals += 1
            except Violation as v:
                self.report(v, st)
                if len(self.violations) >= max_violations:
                    return


class MX:
    def __init__(self, n, prefix):
        self.n = n
        self.known = prefix     # tuple of True (quote) / False / None

    def copy(self):
        return self             # replaced, never changed


class MergeWorld(AbsWorld):
    """symbol strings of length n beginning with a given prefix"""
    ROLES = ("S",)

    def __init__(self, mod, driver, n, prefix):
        AbsWorld.__init__(self, mod, driver)
        self.n, self.prefix = n, prefix

    def parse_args(self, it, st, fmt, kw, dst, ins):
        if len(dst) != 1:
            raise Anchor("%s takes other arguments" % self.driver.name)

        def fn(s):
            v = self.new(s, "any", ref=0, base=1, isu=1, role="S", len=self.n)
            s.w.x = MX(self.n, tuple(self.prefix) + (None,) * (self.n - len(self.prefix)))
            s.w.self_ = v[1]
            it.store(s, dst[0], v, None, ins)
            s.forced = ("val", 1)
        raise Fork([("arguments accepted", fn)])

    def a_vp_MAXCHAR(self, it, st, a, ins):
        return 127

    def char(self, it, st, o, idx, ins):
        k = st.w.x.known[idx]
        if k is not None:
            return ("sym", idx, k)

        def fn(q):
            def g(s):
                kn = list(s.w.x.known)
                kn[idx] = q
                s.w.x = MX(self.n, tuple(kn))
            return g
        raise Fork([("Q", fn(True)), ("other", fn(False))])

    def binop(self, it, st, op, a, b, ins):
        for p, q in ((a, b), (b, a)):
            if isinstance(p, tuple) and p[0] == "sym" and op == "and" and q in (127, 255, 0xffff):
                return p
        return MemWorld.binop(self, it, st, op, a, b, ins)

    def compare(self, it, st, pred, a, b, ins):
        for p, q in ((a, b), (b, a)):
            if isinstance(p, tuple) and p[0] == "sym":
                if pred not in ("eq", "ne"):
                    raise Unsupported("ordering of symbols", ins)
                if isinstance(q, tuple) and q[0] == "sym":
                    eq = True if p[2] and q[2] or p[1] == q[1] else (False if p[2] != q[2] else None)
                elif q == ord("Q"):
                    eq = p[2]
                elif isinstance(q, int):
                    eq = False if p[2] or not q or not chr(q & 127) in "CDR" else None
                else:
                    raise Unsupported("comparison of a symbol", ins)
                return None if eq is None else (eq if pred == "eq" else not eq)
        return MemWorld.compare(self, it, st, pred, a, b, ins)

    def inside(self, it, st, obj, idx, ins, what):
        d = st.mem.get(obj)
        if d is None or d.get("freed") or not isinstance(idx, int):
            raise Unsupported("memory (decided by P06)", ins)
        cap = self.sizes(it, st, obj, ins)
        if not 0 <= idx < cap:
            raise Violation("output", "a buffer is %s outside its bounds" % what, ins)
        return d

    def buf_store(self, it, st, obj, idx, v, ty, ins):
        d = st.mem.get(obj)
        if d is not None and d.get("elemsize") is None:
            d["elemsize"] = it.mod.sizeof(ty)
        d = self.inside(it, st, obj, idx, ins, "written")
        d[("at", idx)] = v

    def buf_load(self, it, st, obj, idx, ty, ins):
        d = st.mem.get(obj)
        if d is not None and d.get("elemsize") is None:
            d["elemsize"] = it.mod.sizeof(ty)
        d = self.inside(it, st, obj, idx, ins, "read")
        return d.get(("at", idx), UNDEF)

    def moved(self, s, old, o):
        for k, v in old.items():
            if isinstance(k, tuple) and k[0] == "at":
                s.mem[o][k] = v
        s.mem[o]["elemsize"] = old.get("elemsize")

    def a_memset(self, it, st, a, ins):
        p, v, n = a[:3]
        if isinstance(p, tuple) and p[0] == "b" and isinstance(n, int):
            d = self.range_(it, st, p, n, ins, "filled")
            es = d.get("elemsize")
            if es in (None, 1):
                for i in range(n):
                    d[("at", p[2] + i)] = v
            elif v == 0:
                for i in range(n // es):
                    d[("at", p[2] + i)] = 0
            else:
                raise Unsupported("memset", ins)
            return p
        raise Unsupported("memset", ins)

    def a_memcpy(self, it, st, a, ins):
        p, q, n = a[:3]
        if all(isinstance(x, tuple) and x[0] == "b" for x in (p, q)) and isinstance(n, int):
            d = self.range_(it, st, p, n, ins, "written")
            e = self.range_(it, st, q, n, ins, "read")
            es = d.get("elemsize") or e.get("elemsize") or 1
            vals = [e.get(("at", q[2] + i), UNDEF) for i in range(n // es)]
            for i, x in enumerate(vals):
                d[("at", p[2] + i)] = x
            return p
        raise Unsupported("memcpy", ins)
    a_memmove = a_memcpy

    def a_vp_WRITE(self, it, st, a, ins):
        v = a[1]
        if isinstance(v, tuple) and v[0] == "p" and st.mem[v[1]].get("tag") == "str":
            d = st.mem[v[1]]
            if not 0 <= a[2] < d["len"]:
                raise Violation("output", "a symbol is written outside the result", ins)
            d[("at", a[2])] = a[3]
            return None
        raise Unsupported("character written through %r" % (v,), ins)

    def from_memory(self, it, st, p, n, ins, scale=1):
        if not isinstance(n, int) or n < 0:
            raise Violation("output", "the result has another length", ins)
        d = st.mem[p[1]] if isinstance(p, tuple) and p[0] == "b" else {}
        if n and d.get("freed"):
            raise Unsupported("memory (decided by P06)", ins)
        vals = [d.get(("at", p[2] + i), UNDEF) for i in range(n)]

        def ok(s):
            o = self.new(s, "str", len=n)
            for i, v in enumerate(vals):
                s.mem[o[1]][("at", i)] = v
            return o
        self.fallible(st, ok)

    @staticmethod
    def reference(known):
        n = len(known)
        out = list(range(n))
        i, start = 0, None
        while i < n:
            if known[i]:
                if start is None:
                    start = i
                elif i + 1 < n and known[i + 1]:
                    i += 1
                else:
                    for k in range(start, i + 1):
                        out[k] = "C"
                    start = None
            i += 1
        return out

    def finished(self, it, st, v, ins, cb):
        if not (isinstance(v, tuple) and v[0] == "o" and v[1] in st.mem):
            raise Violation("output", "there is no result although nothing failed", ins)
        d = st.mem[v[1]]
        known = st.w.x.known
        if None in known and v[1] != st.w.self_:
            left = [i for i, k in enumerate(known) if k is None]
            if any(d.get(("at", i)) is None for i in left):
                raise Violation("output", "the result is made before all symbols were read", ins)
        self.count_("symbol strings compared")
        if v[1] == st.w.self_:
            got = list(range(self.n))
        else:
            if d["len"] != self.n:
                raise Violation("output", "the result has %d symbols instead of %d" % (d["len"], self.n), ins)
            got = []
            for i in range(self.n):
                x = d.get(("at", i), UNDEF)
                if isinstance(x, tuple) and x[0] == "sym":
                    got.append("Q" if x[2] else x[1])
                elif isinstance(x, int) and 0 < x < 128:
                    got.append(chr(x))
                else:
                    got.append("?")
        known = [bool(k) for k in known]
        want = [("Q" if w != "C" and known[w] else w) for w in self.reference(known)]
        got = [("Q" if not isinstance(g, str) and known[g] else g) for g in got]
        if got != want:
            def show(z):
                return "".join(g if isinstance(g, str) else "x" for g in z)
            raise Violation("output", "%s becomes %s instead of %s (x: any other symbol, kept)" % ("".join("Q" if k else "x" for k in known), show(got), show(want)), ins)
        raise Terminal()
