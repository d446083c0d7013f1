# -*- coding: utf-8 -*-
"""Abstract interpreter for Python, over the bytecode the compiler produces for
the repository's sources (the sources are compiled, never executed).

Values
  ('k', type name, value)      constant
  ('tup', (v, ...))            tuple
  ('r', oid)                   heap object (list, dict, set, instance, class,
                               function, module, iterator, generator, cell, ...)
  ('t', op, ...)               opaque term; ('t', '#', n, desc, type) is a symbol
                               made during the run, ('t', 'arg', name, type) an input
  ('ext', dotted name)         something outside the package
  ('bm', function, self)       bound method
  ('ebm', receiver, name)      method of an opaque or modelled receiver

Paths fork at decisions on opaque values; decisions are remembered as facts.
Loops run until the abstract state repeats: states are compared after renaming
objects and symbols, counters that keep changing are forgotten, lists that keep
growing are summarised.  Nothing of the repository is ever executed."""
import builtins as _bi
import dis
import os
import time
import types

NULL = ("NULL",)
NONE = ("k", "NoneType", None)
TRUE = ("k", "bool", True)
FALSE = ("k", "bool", False)


class Unsupported(Exception):
    pass


class Violation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key, self.msg = key, msg


class Prune(Exception):
    """this path cannot happen / is of no interest"""


class Fork(Exception):
    def __init__(self, label, options):
        self.label, self.options = label, options


class PyRaise(Exception):
    """a Python exception inside the interpreted program"""

    def __init__(self, exc):
        self.exc = exc


class Pushed(Exception):
    """a frame was pushed; the result arrives when it returns"""


def K(v):
    if v is None:
        return NONE
    if isinstance(v, tuple):
        return ("tup", tuple(K(x) for x in v))
    return ("k", type(v).__name__, v)


def is_k(v):
    return v[0] == "k"


def kval(v):
    return v[2]


def T(op, *args):
    return ("t", op) + args


def is_int(v):
    return v[0] == "k" and v[1] in ("int", "bool")


def contains(v, pred):
    """does the value contain a sub-value satisfying pred?"""
    if pred(v):
        return True
    for x in v:
        if isinstance(x, tuple) and x and contains(x, pred):
            return True
    return False


def symbols(v, out):
    if v and v[0] == "t" and v[1] == "#":
        out.add(v)
        return
    for x in v:
        if isinstance(x, tuple) and x:
            symbols(x, out)


def depth(v):
    m = 0
    for x in v:
        if isinstance(x, tuple) and x:
            d = depth(x)
            if d > m:
                m = d
    return m + 1


# ------------------------------------------------------------------ code
class Code:
    """preprocessed code object"""

    def __init__(self, co, module):
        self.co = co
        self.module = module
        self.name = co.co_name
        self.qualname = co.co_qualname
        ins = [i for i in dis.get_instructions(co)]
        self.ops = []
        self.offidx = {}
        line = co.co_firstlineno
        merged = []
        for i in ins:
            if i.positions and i.positions.lineno:
                line = i.positions.lineno
            self.offidx[i.offset] = len(merged)
            if i.opname == "EXTENDED_ARG":
                continue
            merged.append((i.opname, i.arg, i.argval, line, i.offset, i.argrepr))
        self.ops = merged
        self.table = [(e.start, e.end, e.target, e.depth, e.lasti) for e in dis._parse_exception_table(co)]
        names = list(co.co_varnames)
        for n in co.co_cellvars:
            if n not in names:
                names.append(n)
        self.nfree = len(names)
        names += list(co.co_freevars)
        self.localsplus = names
        self.argcount = co.co_argcount
        self.kwonly = co.co_kwonlyargcount
        self.posonly = co.co_posonlyargcount
        self.varargs = bool(co.co_flags & 4)
        self.varkw = bool(co.co_flags & 8)
        self.is_gen = bool(co.co_flags & 0x20)
        self.sub = {}
        self.loopheads = {self.offidx[o[2]] for o in merged if o[0].startswith("JUMP_BACKWARD")}
        self.live = self._liveness()

    def _liveness(self):
        """indices of local variables that may still be read, per instruction"""
        n = len(self.ops)
        succ = []
        for idx, (op, arg, argval, line, off, _) in enumerate(self.ops):
            s = []
            if op in ("RETURN_VALUE", "RETURN_CONST", "RAISE_VARARGS", "RERAISE"):
                pass
            elif op.startswith("JUMP_"):
                s.append(self.offidx[argval])
            else:
                if idx + 1 < n:
                    s.append(idx + 1)
                if op.startswith("POP_JUMP") or op in ("FOR_ITER", "SEND"):
                    t = self.offidx[argval]
                    s.append(t)
                    if op == "FOR_ITER":
                        s.append(t + 1)
            succ.append(s)
        hand = []
        for (op, arg, argval, line, off, _) in self.ops:
            hs = [self.offidx[t] for (a, b, t, d, l) in self.table if a <= off < b]
            hand.append(hs)
        live = [frozenset()] * n
        changed = True
        while changed:
            changed = False
            for idx in range(n - 1, -1, -1):
                op, arg = self.ops[idx][0], self.ops[idx][1]
                out = set()
                for s in succ[idx]:
                    if s < n:
                        out |= live[s]
                if op in ("STORE_FAST", "DELETE_FAST"):
                    out.discard(arg)
                for h in hand[idx]:
                    out |= live[h]
                if op in ("LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_CLOSURE", "LOAD_DEREF", "STORE_DEREF",
                          "LOAD_FAST_AND_CLEAR", "MAKE_CELL", "LOAD_FROM_DICT_OR_DEREF", "DELETE_FAST", "DELETE_DEREF"):
                    out.add(arg)
                f = frozenset(out)
                if f != live[idx]:
                    live[idx] = f
                    changed = True
        return live


class Frame:
    __slots__ = ("code", "pc", "stack", "loc", "glob", "ns", "kwn", "exc", "ret", "closure", "gen", "func")

    def __init__(self, code, glob, loc=None, ns=None, ret=("push",), closure=(), func=None):
        self.code = code
        self.pc = 0
        self.stack = []
        self.loc = loc if loc is not None else [None] * len(code.localsplus)
        self.glob = glob
        self.ns = ns
        self.kwn = ()
        self.exc = NONE
        self.ret = ret
        self.closure = closure
        self.gen = None
        self.func = func

    def copy(self):
        f = Frame.__new__(Frame)
        f.code, f.pc, f.glob, f.ns, f.kwn, f.exc = self.code, self.pc, self.glob, self.ns, self.kwn, self.exc
        f.ret, f.closure, f.gen, f.func = self.ret, self.closure, self.gen, self.func
        f.stack = list(self.stack)
        f.loc = list(self.loc)
        return f


def public(attrs):
    return {k: v for k, v in attrs.items() if not k.startswith("_") or k.startswith("__") and k.endswith("__")}


def protect(st, v, why, into=None):
    """marks everything changeable that is reachable from a value"""
    if not isinstance(v, tuple):
        if isinstance(v, (list, frozenset)):
            for x in v:
                protect(st, x, why, into)
        elif isinstance(v, dict):
            for x in v.values():
                protect(st, x, why, into)
        return
    if len(v) == 2 and v[0] == "r":
        o = st.get(v) if into is None else into.get(v[1])
        if o is None or o.get("frozen") or o.get("ns") or o["kind"] not in ("list", "dict", "set", "inst", "class"):
            return
        (st.heap if into is None else into)[v[1]] = dict(o, frozen=why)
        protect(st, o.get("segs", ()), why, into)
        if o["kind"] == "inst":
            protect(st, o.get("attrs", {}), why, into)
        return
    for x in v:
        if isinstance(x, (tuple, list, dict, frozenset)):
            protect(st, x, why, into)


class State:
    __slots__ = ("frames", "heap", "base", "facts", "mon", "nid", "pending", "used", "trace", "steps", "result", "notes", "cur", "forked", "jumps")

    def __init__(self, base):
        self.frames = []
        self.heap = {}
        self.base = base
        self.facts = {}
        self.mon = None
        self.nid = 0
        self.pending = []
        self.used = []
        self.trace = None
        self.steps = 0
        self.result = None
        self.notes = ()
        self.cur = None
        self.forked = True
        self.jumps = 0

    def snapshot(self):
        s = State.__new__(State)
        s.frames = list(self.frames)
        if s.frames:
            s.frames[-1] = s.frames[-1].copy()
        s.heap = dict(self.heap)
        s.base = self.base
        s.facts = dict(self.facts)
        s.mon = self.mon
        s.nid = self.nid
        s.pending = []
        s.used = []
        s.trace = self.trace
        s.steps = self.steps
        s.result = self.result
        s.notes = self.notes
        s.cur = self.cur
        s.forked = self.forked
        s.jumps = self.jumps
        return s

    # frames below the top are shared between states: copy before changing
    def own_top(self):
        self.frames[-1] = self.frames[-1].copy()

    def get(self, ref):
        o = self.heap.get(ref[1])
        if o is None:
            o = self.base[ref[1]]
        return o

    def put(self, ref, o):
        self.heap[ref[1]] = o

    def in_package(self):
        for f in reversed(self.frames):
            if f.code.module != "vp_prelude":
                return f.code.module.split(".")[0] == "clevercsv"
        return False

    def upd(self, ref, **kw):
        o = dict(self.get(ref))
        if o.get("frozen") and self.in_package():
            if "segs" in kw and kw["segs"] != o.get("segs") or "attrs" in kw and public(kw["attrs"]) != public(o.get("attrs", {})):
                raise Violation("modified", o["frozen"])
        o.update(kw)
        self.heap[ref[1]] = o

    def new(self, kind, **kw):
        self.nid += 1
        kw["kind"] = kind
        self.heap[self.nid] = kw
        return ("r", self.nid)

    def fresh(self, desc, typ=None):
        self.nid += 1
        return ("t", "#", self.nid, desc, typ)


BUILTIN_EXC = {n: c for n, c in vars(_bi).items() if isinstance(c, type) and issubclass(c, BaseException)}
EXT_EXC = {  # external exception classes and their bases
    "_csv.Error": "Exception", "csv.Error": "_csv.Error", "json.JSONDecodeError": "ValueError",
    "json.decoder.JSONDecodeError": "ValueError", "clevercsv.cparser.Error": "Exception",
    "shutil.Error": "OSError", "re.error": "Exception", "regex.error": "Exception", "io.UnsupportedOperation": "OSError",
    "pandas.errors.ParserWarning": "Warning", "pandas.errors.ParserError": "ValueError", "pandas.errors.EmptyDataError": "ValueError",
    "packaging.version.InvalidVersion": "ValueError", "PARSE": "Exception",
}


class Machine:
    MAX_STATES = 60000
    MAX_STEPS = 4000000
    MAX_COUNTER = 6
    MAX_LIST = 5
    MAX_DEPTH = 14

    def __init__(self, program, world):
        self.prog = program
        self.w = world
        world.m = self
        self.states = 0
        self.steps = 0
        self.finals = 0
        self.violations = []
        self.visited = set()
        self.counters = {}
        self.lines = set()
        self.functions = set()
        self.deadline = None
        from . import pymodels
        self.models = pymodels
        self.handlers = {}
        for n in dir(self):
            if n.startswith("op_"):
                self.handlers[n[3:]] = getattr(self, n)

    # --------------------------------------------------------------- choices
    def choose(self, st, label, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        if st.pending:
            o = st.pending.pop(0)
            st.used.append(o)
            return o
        raise Fork(label, options)

    # ----------------------------------------------------------------- facts
    def typ(self, st, v):
        """type name of a value, if known"""
        if v[0] == "k":
            return v[1]
        if v[0] == "tup":
            return "tuple"
        if v[0] == "r":
            o = st.get(v)
            k = o["kind"]
            if k == "inst":
                return o["cls"]
            return k
        if v[0] == "t":
            if v[1] == "#":
                t = v[4]
            elif v[1] == "arg":
                t = v[3]
            else:
                t = self.models.term_type(self, st, v)
            return t
        return None

    def resolve(self, st, v):
        """constant equal to an opaque term on this path, or the term"""
        if v[0] != "t" or not st.facts:
            return v
        if v in st.facts.get("=", ()):  # not used
            return v
        c = st.facts.get(("=", v))
        return v if c is None else c

    def eqclass(self, st, a):
        """values known equal to a"""
        seen = [a]
        todo = [a]
        while todo:
            x = todo.pop()
            for f, val in st.facts.items():
                if val is True and f[0] == "t" and f[1] == "eq":
                    if f[2] == x and f[3] not in seen:
                        seen.append(f[3])
                        todo.append(f[3])
                    elif f[3] == x and f[2] not in seen:
                        seen.append(f[2])
                        todo.append(f[2])
        return seen

    def decide(self, st, t):
        """truth of a boolean term under the path's facts: True, False or None"""
        if t[0] == "k":
            return bool(t[2])
        v = st.facts.get(t)
        if v is not None:
            return v
        op = t[1]
        if op == "not":
            d = self.decide(st, t[2])
            return None if d is None else not d
        if op == "eq":
            a, b = t[2], t[3]
            if a == b:
                return True
            ca, cb = self.eqclass(st, a), self.eqclass(st, b)
            if b in ca:
                return True
            for x in ca:
                for y in cb:
                    if x[0] == "k" and y[0] == "k":
                        if kval(x) != kval(y):
                            return False
                        return True
                    tx, ty = self.static_type(st, x), self.static_type(st, y)
                    if tx and ty and tx != ty and self.models.never_equal(tx, ty):
                        return False
                    f = st.facts.get(self.mk_eq_raw(x, y))
                    if f is False:
                        return False
            for x, y in ((a, b), (b, a)):
                if y[0] == "k" and y[1] == "int" and self.typ(st, x) == "int":
                    lo, hi = self.bounds(st, x)
                    if y[2] < lo or (hi is not None and y[2] > hi):
                        return False
                    if lo == hi == y[2]:
                        return True
            # strings: an element of length one differs from the empty string
            for x, y in ((a, b), (b, a)):
                if y[0] == "k" and y[1] == "str":
                    lo, hi = self.bounds(st, T("len", x)) if self.typ(st, x) == "str" else (0, None)
                    n = len(y[2])
                    if n < lo or (hi is not None and n > hi):
                        return False
            for x, y in ((a, b), (b, a)):
                if y[0] == "k" and y[1] == "bool" and x[0] == "t" and self.typ(st, x) == "bool":
                    d = self.decide(st, x)
                    if d is not None:
                        return d == y[2]
            if a[0] == b[0] == "t" and a[1] == b[1] and a[1] not in ("#", "arg") and self.congruent(st, a, b):
                return True
            la, lb = self.decide_lt(st, a, b), self.decide_lt(st, b, a)
            if la is True or lb is True:
                return False
            if la is False and lb is False and (self.is_number(st, a) and self.is_number(st, b) or self.typ(st, a) == self.typ(st, b) == "str"):
                return True
            return None
        if op == "lt":
            return self.decide_lt(st, t[2], t[3])
        if op == "isnone":
            a = t[2]
            ty = self.typ(st, a)
            if ty not in (None, "NoneType", "?"):
                return False
            if ty == "NoneType":
                return True
            for x in self.eqclass(st, a):
                if x[0] == "k":
                    return x[1] == "NoneType"
            for f, val in st.facts.items():
                # something that has properties only objects have
                if val is True and f[0] == "t" and f[1] in ("truth", "isinst") and f[2] == a:
                    return False
            return None
        if op == "truth":
            a = t[2]
            for x in self.eqclass(st, a):
                if x[0] == "k":
                    return bool(x[2])
            d = st.facts.get(T("isnone", a))
            if d is True:
                return False
            return self.w.decide(self, st, t)
        return self.w.decide(self, st, t)

    def congruent(self, st, a, b):
        """two terms of one shape whose parts are known to be equal"""
        if a == b:
            return True
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or not a or not b:
            return False
        if a[0] in ("k", "t") and b[0] in ("k", "t"):
            if b in self.eqclass(st, a):
                return True
            if a[0] == b[0] == "t" and a[1] == b[1] and a[1] not in ("#", "arg") and len(a) == len(b):
                return all(self.congruent(st, x, y) for x, y in zip(a[2:], b[2:]))
            return False
        return len(a) == len(b) and all(self.congruent(st, x, y) for x, y in zip(a, b))

    def is_number(self, st, v):
        return self.typ(st, v) in ("int", "float", "bool")

    def static_type(self, st, v):
        t = self.typ(st, v)
        return t if isinstance(t, str) else None

    def bounds(self, st, x):
        lo, hi = None, None
        ev = getattr(self.w, "term_bounds", None)
        if ev:
            r = ev(self, st, x)
            if r:
                lo, hi = r
        if lo is None and x[0] == "t" and x[1] in ("len", "str.count", "str.find"):
            lo = -1 if x[1] == "str.find" else 0
            if x[1] == "len":
                a = x[2]
                if a[0] == "t" and a[1] == "#" and a[3][:1] == ("char",):
                    lo, hi = 1, 1
        if x[0] == "t" and x[1] == "len" and x[2][0] == "t" and x[2][1] in ("str.split", "str.rsplit") and 4 <= len(x[2]) <= 5:
            s = x[2]
            mx = s[4][2] if len(s) == 5 and s[4][0] == "k" and isinstance(s[4][2], int) else None
            if s[3][0] == "t" and self.typ(st, s[3]) == "str" or s[3][0] == "k" and isinstance(s[3][2], str):
                lo = max(lo or 0, 1)
                if mx is not None and mx >= 0:
                    hi = mx + 1
                inside = st.facts.get(T("in", s[3], s[2]))
                if inside is True and (len(s) == 4 or mx is not None and mx != 0):
                    lo = max(lo, 2)
                elif inside is False:
                    hi = 1
        for f, val in st.facts.items():
            if f[0] != "t":
                continue
            if f[1] == "lt":
                if f[2][0] == "k" and f[3] == x and f[2][1] == "int":
                    c = f[2][2]
                    if val:
                        lo = c + 1 if lo is None else max(lo, c + 1)
                    else:
                        hi = c if hi is None else min(hi, c)
            elif f[1] == "eq" and val is True:
                for a, b in ((f[2], f[3]), (f[3], f[2])):
                    if a == x and b[0] == "k" and b[1] == "int":
                        lo = hi = b[2]
            elif f[1] == "eq" and x[0] == "t" and x[1] == "len":
                for a, b in ((f[2], f[3]), (f[3], f[2])):
                    if a == x[2] and b[0] == "k" and b[1] == "str":
                        if val:
                            lo = hi = len(b[2])
                        elif b[2] == "":
                            lo = max(lo or 0, 1)
            elif f[1] == "truth" and x[0] == "t" and x[1] == "len" and f[2] == x[2]:
                if val:
                    lo = max(lo or 0, 1)
                elif self.typ(st, f[2]) in ("str", "list", "tuple", "set", "dict", "seq"):
                    lo = hi = 0
        # excluded single values at the borders
        if lo is not None:
            ch = True
            while ch:
                ch = False
                for f, val in st.facts.items():
                    if val is False and f[0] == "t" and f[1] == "eq":
                        for a, b in ((f[2], f[3]), (f[3], f[2])):
                            if a == x and b[0] == "k" and b[1] == "int" and b[2] == lo and (hi is None or hi > lo):
                                lo += 1
                                ch = True
        return (lo if lo is not None else float("-inf")), hi

    def decide_lt(self, st, a, b):
        if a == b:
            return False
        if a[0] == "k" and b[0] == "k":
            try:
                return a[2] < b[2]
            except TypeError:
                return None
        f = st.facts.get(T("lt", a, b))
        if f is not None:
            return f
        if b == K("") and self.typ(st, a) == "str":
            return False
        if a == K("") and self.typ(st, b) == "str":
            lo, hi = self.bounds(st, T("len", b))
            if lo >= 1:
                return True
            if hi == 0:
                return False
        for x, c, flip in ((b, a, False), (a, b, True)):
            if c[0] == "k" and c[1] in ("int", "bool") and self.typ(st, x) in ("int", "bool"):
                lo, hi = self.bounds(st, x)
                if not flip:      # c < x
                    if lo > c[2]:
                        return True
                    if hi is not None and hi <= c[2]:
                        return False
                else:             # x < c
                    if hi is not None and hi < c[2]:
                        return True
                    if lo >= c[2]:
                        return False
        # order graph: edges (x, y, strict) meaning x <= y or x < y
        edges = {}
        nodes = set()

        def edge(x, y, s):
            edges.setdefault(x, []).append((y, s))
            nodes.add(x)
            nodes.add(y)
        for f, val in st.facts.items():
            if f[0] != "t":
                continue
            if f[1] == "lt":
                if val:
                    edge(f[2], f[3], True)
                else:
                    edge(f[3], f[2], False)
            elif f[1] == "eq" and val is True:
                edge(f[2], f[3], False)
                edge(f[3], f[2], False)
        for kinds in (("int", "float", "bool"), ("str",)):
            ks = [n for n in nodes | {a, b} if n[0] == "k" and n[1] in kinds]
            for x in ks:
                for y in ks:
                    if x is not y and x[2] <= y[2]:
                        edge(x, y, x[2] < y[2])
        for x, y, s in self.w.order_axioms(self, st, nodes | {a, b}):
            edge(x, y, s)

        def reach(x, y):
            best = {x: False}
            todo = [x]
            while todo:
                n = todo.pop()
                for m, s in edges.get(n, ()):
                    ns = best[n] or s
                    if m not in best or (ns and not best[m]):
                        best[m] = ns
                        todo.append(m)
            return best.get(y)
        r = reach(a, b)
        if r is True:
            return True
        r2 = reach(b, a)
        if r2 is not None:
            return False
        if r is False:
            for f, val in st.facts.items():
                if val is False and f[0] == "t" and f[1] == "eq":
                    for x, y in ((f[2], f[3]), (f[3], f[2])):
                        if reach(a, x) is not None and reach(x, y) is not None and reach(y, b) is not None:
                            return True
        return None

    def ask(self, st, t, label=None):
        """decide a boolean term, forking when it is open; records the fact"""
        while t[0] == "t" and t[1] == "not":
            return not self.ask(st, t[2], label)
        d = self.decide(st, t)
        if d is not None:
            return d
        o = self.choose(st, label or self.show_term(t), [True, False])
        self.learn(st, t, o)
        return o

    def learn(self, st, t, val):
        st.facts[t] = val
        if val and t[1] == "eq":
            a, b = t[2], t[3]
            if b[0] == "k" and a[0] == "t":
                st.facts[("=", a)] = b
            elif a[0] == "k" and b[0] == "t":
                st.facts[("=", b)] = a
        if val and t[1] == "isnone":
            st.facts[("=", t[2])] = NONE
        self.w.learned(self, st, t, val)

    @staticmethod
    def mk_eq_raw(a, b):
        if repr(b) < repr(a):
            a, b = b, a
        return T("eq", a, b)

    # -------------------------------------------------------------- exploring
    def run(self, st):
        """runs every path from the initial state"""
        work = [st]
        while work:
            st = work.pop()
            try:
                self.path(st, work)
            except Prune:
                pass
            except Violation as v:
                self.report(st, v)
                if len(self.violations) >= 40:
                    return
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("exploration ran out of time after %d states" % self.states)
            if self.states > self.MAX_STATES:
                raise Unsupported("more than %d abstract states" % self.MAX_STATES)

    def report(self, st, v):
        where = self.where(st)
        for x in self.violations:
            if x["key"] == v.key and x["where"] == where:
                return
        tr = []
        t = st.trace
        while t is not None:
            tr.append(t[1])
            t = t[0]
        tr.reverse()
        self.violations.append(dict(key=v.key, msg=v.msg, where=where, trace=tr,
                                    stack=[(f.code.module, f.code.qualname, self.line(f)) for f in st.frames]))

    def line(self, fr):
        i = min(max(fr.pc - 1, 0), len(fr.code.ops) - 1)
        return fr.code.ops[i][3]

    def where(self, st):
        for f in reversed(st.frames):
            if f.code.module not in ("vp_prelude", "vp_harness"):
                return "%s:%s (in %s)" % (self.prog.relpath(f.code.module), self.line(f), f.code.qualname)
        return "end of the scenario"

    SIMPLE = {"RESUME", "NOP", "LOAD_FAST", "LOAD_CONST", "STORE_FAST", "POP_TOP", "PUSH_NULL", "COPY", "SWAP",
              "JUMP_FORWARD", "JUMP_BACKWARD_NO_INTERRUPT", "KW_NAMES", "BUILD_TUPLE", "BUILD_LIST", "LOAD_DEREF",
              "LOAD_CLOSURE", "MAKE_CELL", "COPY_FREE_VARS", "PUSH_EXC_INFO", "POP_EXCEPT", "LOAD_FAST_AND_CLEAR",
              "STORE_NAME", "END_FOR", "END_SEND", "RETURN_GENERATOR", "LOAD_ASSERTION_ERROR", "STORE_DEREF"}

    def path(self, st, work):
        while st.frames:
            fr = st.frames[-1]
            if fr.pc >= len(fr.code.ops):
                raise Unsupported("fell off the end of %s" % fr.code.qualname)
            op = fr.code.ops[fr.pc]
            self.steps += 1
            st.steps += 1
            if self.steps > self.MAX_STEPS:
                raise Unsupported("more than %d steps" % self.MAX_STEPS)
            h = self.handlers.get(op[0])
            if h is None:
                raise Unsupported("instruction %s in %s line %s" % (op[0], fr.code.qualname, op[3]))
            if op[0] in self.SIMPLE:
                fr.pc += 1
                h(st, fr, op)
                continue
            snap = None
            if st.pending:
                snap_pending = list(st.pending)
            else:
                snap_pending = []
            snap = st.snapshot()
            self.lines.add((fr.code.module, op[3]))
            fr.pc += 1
            try:
                try:
                    h(st, fr, op)
                except Pushed:
                    pass
                st.pending = []
                st.used = []
            except PyRaise as e:
                st.pending = []
                st.used = []
                if not self.unwind(st, e.exc):
                    self.finish(st, None, e.exc)
                    return
                continue
            except Fork as f:
                used = list(st.used)
                self.states += 1
                line = "%s:%s" % (self.prog.relpath(fr.code.module), op[3])
                for o in reversed(f.options):
                    s = snap.snapshot()
                    s.pending = used + [o]
                    s.forked = True
                    if len(f.options) > 1:
                        s.trace = (snap.trace, "%s %s: %s" % (line, f.label, self.show_opt(o)))
                    work.append(s)
                return
            if st.result is not None:
                return
            if op[0] in ("JUMP_BACKWARD", "RETURN_VALUE", "RETURN_CONST", "YIELD_VALUE") and st.frames:
                if op[0] == "JUMP_BACKWARD" or (self.w.merge_returns and st.forked):
                    if op[0] == "JUMP_BACKWARD":
                        self.widen(st)
                        st.jumps += 1
                        if not st.forked and st.jumps % 64:
                            continue
                    st.forked = False
                    self.gc(st)
                    k = self.key(st)
                    if k in self.visited:
                        return
                    self.visited.add(k)
                    self.states += 1
        return

    def show_opt(self, o):
        if isinstance(o, tuple):
            return self.show_term(o) if o and o[0] in ("k", "t", "r", "ext", "tup") else str(o)
        return str(o)

    def show_term(self, t):
        return self.models.show(t)

    def finish(self, st, val, exc):
        self.finals += 1
        st.result = (val, exc)
        self.w.finished(self, st, val, exc)

    # ------------------------------------------------------------- exceptions
    def exc_class(self, st, exc):
        o = st.get(exc)
        return o["cls"]

    def new_exc(self, st, cls, *args):
        if isinstance(cls, str):
            cls = ("ext", "builtins." + cls)
        return st.new("exc", cls=cls, args=tuple(args), attrs={}, unknown=False)

    def throw(self, st, name, *args):
        raise PyRaise(self.new_exc(st, name, *[K(a) if isinstance(a, str) else a for a in args]))

    def ext_bases(self, name):
        """known base class names of an external exception class, most derived first"""
        n = name[9:] if name.startswith("builtins.") else name
        out = []
        while n in EXT_EXC:
            out.append(n)
            n = EXT_EXC[n]
        if n in BUILTIN_EXC:
            out += [c.__name__ for c in BUILTIN_EXC[n].__mro__ if c is not object]
        else:
            out.append(n)
        return out

    def exc_names(self, st, cls):
        """names of a class and its bases"""
        if cls[0] == "ext":
            return self.ext_bases(cls[1])
        out = []
        for c in st.get(cls)["mro"]:
            if c[0] == "r":
                out.append(c)
            else:
                out += self.ext_bases(c[1])
        return out

    def exc_match(self, st, exc, cls):
        """does exception object exc match class cls (fork when unknown)"""
        if cls[0] == "tup":
            return any(self.exc_match(st, exc, c) for c in cls[1])
        o = st.get(exc)
        want = cls if cls[0] == "r" else self.ext_bases(cls[1])[0]
        names = self.exc_names(st, o["cls"])
        if want in names:
            return True
        if o.get("unknown"):
            if want in o.get("notcls", ()):
                return False
            wb = self.exc_names(st, cls)
            # the class asked for must be a subclass of what is known
            if names[0] not in wb:
                return False
            r = self.choose(st, "exception is a %s" % (want if isinstance(want, str) else st.get(want)["name"]), [True, False])
            if r:
                st.upd(exc, cls=cls)
            else:
                st.upd(exc, notcls=tuple(o.get("notcls", ())) + (want,))
            return r
        return False

    def line_of(self, fr):
        """source line of the instruction being executed in this frame"""
        return fr.code.ops[fr.pc - 1][3]

    def unwind(self, st, exc):
        while st.frames:
            st.own_top()
            fr = st.frames[-1]
            off = fr.code.ops[fr.pc - 1][4] if fr.pc > 0 else 0
            best = None
            for (a, b, t, d, l) in fr.code.table:
                if a <= off < b:
                    best = (t, d, l)
                    break
            if best is not None:
                t, d, l = best
                del fr.stack[d:]
                if l:
                    fr.stack.append(K(off))
                fr.stack.append(exc)
                fr.pc = fr.code.offidx[t]
                return True
            # leaves this frame
            self.w.leave(self, st, fr, None, exc)
            st.frames.pop()
            if fr.gen is not None:
                st.upd(fr.gen, frame=None, state="done")
                names = self.exc_names(st, st.get(exc)["cls"])
                if "StopIteration" in names:
                    exc = self.new_exc(st, "RuntimeError", K("generator raised StopIteration"))
            if not st.frames:
                return False
            r = fr.ret
            if r[0] in ("foriter", "sendend"):
                names = self.exc_names(st, st.get(exc)["cls"])
                if "StopIteration" in names:
                    st.own_top()
                    self.iter_end(st, st.frames[-1], r)
                    return True
            if r[0] == "closethen":
                names = self.exc_names(st, st.get(exc)["cls"])
                if "GeneratorExit" in names or "StopIteration" in names:
                    exc = r[1]
                    continue
            if r[0] == "close":
                names = self.exc_names(st, st.get(exc)["cls"])
                if "GeneratorExit" in names or "StopIteration" in names:
                    st.own_top()
                    st.frames[-1].stack.append(NONE)
                    return True
            if r[0] == "hasattr":
                pass
        return False

    # ------------------------------------------------------------- widening
    def bounded_loop(self, st, fr):
        """a for loop over items that are all known ends by itself"""
        if fr.pc < len(fr.code.ops) and fr.code.ops[fr.pc][0] == "FOR_ITER" and fr.stack:
            it = fr.stack[-1]
            for _ in range(4):
                if it[0] != "r":
                    return False
                o = st.get(it)
                if o["kind"] == "iter":
                    return all(s[0] == "i" for s in o["segs"])
                if o["kind"] in ("enum", "mapit"):
                    it = o["it"]
                elif o["kind"] == "zip" and o["parts"]:
                    return any(st.get(p)["kind"] == "iter" and all(s[0] == "i" for s in st.get(p)["segs"]) for p in o["parts"] if p[0] == "r")
                else:
                    return False
        return False

    def widen(self, st):
        fr = st.frames[-1]
        if self.bounded_loop(st, fr):
            return
        where = (fr.code.module, fr.code.qualname, fr.pc)
        for i, v in enumerate(fr.loc):
            if v is None:
                continue
            nv = self.widen_value(st, v, where + (i,))
            if nv is not v:
                fr.loc[i] = nv
                if self.w.widened:
                    self.w.widened(self, st, v, nv)
        for i, v in enumerate(fr.stack):
            if v is not NULL:
                nv = self.widen_value(st, v, where + ("s", i))
                if nv is not v:
                    fr.stack[i] = nv
        # growing containers reachable from anywhere outside the base heap
        for oid, o in list(st.heap.items()):
            k = o["kind"]
            if k in ("list", "set", "dict"):
                segs = o["segs"]
                if len(segs) > self.MAX_LIST and not (k == "dict" and o.get("ns")) and oid not in st.base \
                        and any(s[0] == "i" for s in segs):
                    if all(s[0] == "i" and all(x[0] == "k" for x in s[1:]) for s in segs) and len(segs) <= 40:
                        continue
                    if k == "dict" and all(s[0] == "i" and s[1][0] == "k" for s in segs) and len(segs) <= 40:
                        continue
                    st.heap[oid] = dict(o, segs=self.summarise(st, segs))
            elif k == "inst" and oid not in st.base:
                a = o["attrs"]
                for n, v in list(a.items()):
                    nv = self.widen_value(st, v, where + ("a", n, repr(o["cls"])))
                    if nv is not v:
                        st.heap[oid] = dict(st.heap[oid], attrs=dict(st.heap[oid]["attrs"], **{n: nv}))
            elif k == "cell" and o.get("v") is not None:
                nv = self.widen_value(st, o["v"], where + ("c",))
                if nv is not o["v"]:
                    st.heap[oid] = dict(o, v=nv)

    def widen_value(self, st, v, where):
        if v[0] == "k" and v[1] in ("int", "float", "str"):
            s = self.counters.setdefault(where, set())
            if len(s) <= self.MAX_COUNTER:
                s.add(v)
            if len(s) > self.MAX_COUNTER:
                return st.fresh(("widened",) + where[:2], v[1])
        elif v[0] == "t" and v[1] != "#" and depth(v) > self.MAX_DEPTH:
            return st.fresh(("widened",) + where[:2], self.typ(st, v))
        elif v[0] == "t" and v[1] not in ("#", "arg") and where[-1] != "c":
            s = self.counters.setdefault(where + ("t",), set())
            g = self.generic(v)
            most = max(12, self.MAX_COUNTER)
            if len(s) <= most:
                s.add(g)
            if len(s) > most:
                return st.fresh(("widened",) + where[:2], self.typ(st, v))
        return v

    def generic(self, v):
        """the value with its symbols made anonymous"""
        if v[0] == "t" and v[1] == "#":
            return ("t", "#", 0, v[3], v[4])
        if v[0] == "r":
            return ("r", 0)
        return tuple(self.generic(x) if isinstance(x, tuple) and x else x for x in v)

    def summarise(self, st, segs):
        """('v', variants): any number of items, each one of the variants"""
        variants = set()
        out = []
        for s in segs:
            if s[0] == "i":
                variants.add((tuple(self.generic(x) for x in s[1:]), self.item_facts(st, s[1:])))
            elif s[0] == "s":
                variants.add((("spread", s[1]), frozenset()))
            else:
                variants |= set(s[1])
        return (("v", frozenset(variants)),)

    def item_facts(self, st, item):
        syms = set()
        for x in item:
            symbols(x, syms)
        out = set()
        if not syms:
            return frozenset()
        for f, val in st.facts.items():
            if f[0] != "t":
                continue
            fs = set()
            symbols(f, fs)
            if fs and fs <= syms:
                out.add((self.generic(f), val))
        return frozenset(out)

    def instantiate(self, st, variant):
        item, facts = variant
        m = {}

        def inst(v):
            if v[0] == "t" and v[1] == "#":
                kk = v
                if kk not in m:
                    m[kk] = st.fresh(v[3], v[4])
                return m[kk]
            if v == ("r", 0):
                return st.fresh(("object",), None)
            return tuple(inst(x) if isinstance(x, tuple) and x else x for x in v)
        r = tuple(inst(x) for x in item)
        for f, val in facts:
            ff = inst(f)
            if val and ff[1] in ("eq", "isnone"):
                self.learn(st, ff, val)
            else:
                st.facts[ff] = val
        return r

    # ------------------------------------------------------- canonical states
    def gc(self, st):
        """drop unreachable objects and the facts about unreachable symbols"""
        seen = set()
        syms = set()
        stack = []

        def visit(v):
            if not v:
                return
            h = v[0]
            if h == "r":
                if v[1] not in seen:
                    seen.add(v[1])
                    stack.append(v[1])
                return
            if h == "t" and len(v) > 2 and v[1] == "#":
                syms.add(v)
                return
            if h in ("k", "ext", "NULL"):
                return
            for x in v:
                if isinstance(x, tuple):
                    visit(x)

        n = len(st.frames)
        for i, fr in enumerate(st.frames):
            self.visit_frame(fr, visit)
        for v in self.w.roots(st):
            visit(v)
        while stack:
            oid = stack.pop()
            o = st.heap.get(oid)
            if o is None:
                continue
            self.visit_obj(o, visit)
        # dirty base objects are always reachable
        for oid in list(st.heap):
            if oid in st.base and oid not in seen:
                seen.add(oid)
                self.visit_obj(st.heap[oid], visit)
        while stack:
            oid = stack.pop()
            o = st.heap.get(oid)
            if o is not None:
                self.visit_obj(o, visit)
        for oid in list(st.heap):
            if oid not in seen and oid not in st.base:
                del st.heap[oid]
        if st.facts:
            nf = {}
            for f, v in st.facts.items():
                fs = set()
                symbols(f, fs)
                if fs <= syms:
                    nf[f] = v
            st.facts = nf

    def visit_frame(self, fr, visit):
        live = fr.code.live[fr.pc] if fr.pc < len(fr.code.live) else ()
        for i, v in enumerate(fr.loc):
            if v is not None:
                if i in live or i >= len(fr.code.co.co_varnames) or (v[0] == "r" and False):
                    visit(v)
                else:
                    fr.loc[i] = ("dead",) if v != ("dead",) else v
        for v in fr.stack:
            visit(v)
        visit(fr.exc)
        for v in fr.closure:
            visit(v)
        if fr.ns is not None:
            visit(fr.ns)
        visit(tuple(x for x in fr.ret if isinstance(x, tuple)))
        if fr.gen:
            visit(fr.gen)
        if fr.func:
            visit(fr.func)

    def visit_obj(self, o, visit):
        for k, v in o.items():
            if k == "frame":
                if v is not None:
                    self.visit_frame(v, visit)
            elif isinstance(v, tuple):
                visit(v)
            elif isinstance(v, dict):
                for x in v.values():
                    if isinstance(x, tuple):
                        visit(x)
            elif isinstance(v, frozenset):
                for x in v:
                    if isinstance(x, tuple):
                        visit(x)

    def key(self, st):
        ren = {}
        sren = {}
        queue = []
        base = st.base

        def cv(v):
            if not isinstance(v, tuple):
                return v
            if not v:
                return v
            h = v[0]
            if h == "r":
                o = v[1]
                if o in base:
                    return v
                if o not in ren:
                    ren[o] = len(ren)
                    queue.append(o)
                return ("r", "n%d" % ren[o])
            if h == "k":
                return v
            if h == "t" and v[1] == "#":
                if v not in sren:
                    sren[v] = len(sren)
                return ("t", "#", "n%d" % sren[v], v[3], v[4])
            return tuple(cv(x) if isinstance(x, tuple) else x for x in v)

        def cframe(fr):
            return (fr.code.module, fr.code.qualname, fr.code.co.co_firstlineno, fr.pc, tuple(cv(x) for x in fr.stack),
                    tuple(None if x is None else cv(x) for x in fr.loc), cv(fr.ns) if fr.ns else None, fr.kwn, cv(fr.exc),
                    cv(fr.ret), tuple(cv(c) for c in fr.closure), cv(fr.gen) if fr.gen else None)

        out = [cframe(fr) for fr in st.frames]
        out.append(cv(self.w.mon_key(st)))
        for oid in sorted(o for o in st.heap if o in base):
            queue.append(oid)
        i = 0
        while i < len(queue):
            oid = queue[i]
            i += 1
            o = st.heap.get(oid)
            if o is None:
                o = base.get(oid)
            items = []
            for k in sorted(o):
                v = o[k]
                if k == "frame":
                    items.append((k, cframe(v) if v is not None else None))
                elif isinstance(v, dict):
                    items.append((k, tuple((n, cv(x)) for n, x in v.items())))
                elif isinstance(v, Code):
                    items.append((k, v.qualname))
                elif isinstance(v, frozenset):
                    items.append((k, v))
                else:
                    items.append((k, cv(v)))
            out.append(tuple(items))
        out.append(frozenset((cv(f), v if isinstance(v, bool) else cv(v)) for f, v in st.facts.items()))
        return hash_key(tuple(out))

    # ----------------------------------------------------------- instructions
    def push(self, fr, v):
        fr.stack.append(v)

    def op_RESUME(self, st, fr, op):
        pass
    op_NOP = op_RESUME

    def op_SETUP_ANNOTATIONS(self, st, fr, op):
        tgt = fr.ns if fr.ns is not None else fr.glob
        if "__annotations__" not in st.get(tgt)["attrs"]:
            self.set_attr_raw(st, tgt, "__annotations__", st.new("dict", segs=()))

    def op_LOAD_CONST(self, st, fr, op):
        v = op[2]
        if isinstance(v, types.CodeType):
            fr.stack.append(("code", v))
        else:
            fr.stack.append(K(v))

    def op_LOAD_FAST(self, st, fr, op):
        v = fr.loc[op[1]]
        if v is None:
            self.throw_unbound(st, fr, op)
        fr.stack.append(v)

    def throw_unbound(self, st, fr, op):
        exc = self.new_exc(st, "UnboundLocalError", K(op[2]))
        raise PyRaise(exc)

    def op_LOAD_FAST_CHECK(self, st, fr, op):
        self.op_LOAD_FAST(st, fr, op)

    def op_LOAD_FAST_AND_CLEAR(self, st, fr, op):
        v = fr.loc[op[1]]
        fr.stack.append(NULL if v is None else v)
        fr.loc[op[1]] = None

    def op_STORE_FAST(self, st, fr, op):
        v = fr.stack.pop()
        fr.loc[op[1]] = None if v == NULL else v

    def op_DELETE_FAST(self, st, fr, op):
        fr.loc[op[1]] = None

    def op_POP_TOP(self, st, fr, op):
        fr.stack.pop()

    def op_PUSH_NULL(self, st, fr, op):
        fr.stack.append(NULL)

    def op_COPY(self, st, fr, op):
        fr.stack.append(fr.stack[-op[1]])

    def op_SWAP(self, st, fr, op):
        i = op[1]
        s = fr.stack
        s[-1], s[-i] = s[-i], s[-1]

    def op_END_FOR(self, st, fr, op):
        fr.stack.pop()
        fr.stack.pop()

    def op_END_SEND(self, st, fr, op):
        v = fr.stack.pop()
        fr.stack[-1] = v

    def op_KW_NAMES(self, st, fr, op):
        fr.kwn = op[2]

    def op_LOAD_ASSERTION_ERROR(self, st, fr, op):
        fr.stack.append(("ext", "builtins.AssertionError"))

    def op_LOAD_BUILD_CLASS(self, st, fr, op):
        fr.stack.append(("ext", "builtins.__build_class__"))

    # names
    def op_LOAD_GLOBAL(self, st, fr, op):
        if op[1] & 1:
            fr.stack.append(NULL)
        fr.stack.append(self.load_global(st, fr, op[2]))

    def load_global(self, st, fr, name):
        g = st.get(fr.glob)["attrs"]
        if name in g:
            return g[name]
        return self.load_builtin(st, fr, name)

    def load_builtin(self, st, fr, name):
        pre = self.prog.prelude_names(st)
        if name in pre:
            return pre[name]
        if hasattr(_bi, name) or name.startswith(("__vp_", "vp__")):
            if name in ("True", "False", "None"):
                return K(getattr(_bi, name))
            return ("ext", "builtins." + name)
        if name in ("__name__",):
            return K(fr.code.module)
        if name in ("__file__", "__doc__", "__package__", "__spec__"):
            return K(name)
        raise PyRaise(self.new_exc(st, "NameError", K(name)))

    def op_LOAD_NAME(self, st, fr, op):
        n = op[2]
        if fr.ns is not None:
            a = st.get(fr.ns)["attrs"]
            if n in a:
                fr.stack.append(a[n])
                return
        fr.stack.append(self.load_global(st, fr, n))

    def op_STORE_NAME(self, st, fr, op):
        v = fr.stack.pop()
        tgt = fr.ns if fr.ns is not None else fr.glob
        self.set_attr_raw(st, tgt, op[2], v)

    def op_DELETE_NAME(self, st, fr, op):
        tgt = fr.ns if fr.ns is not None else fr.glob
        a = dict(st.get(tgt)["attrs"])
        a.pop(op[2], None)
        st.upd(tgt, attrs=a)

    def set_attr_raw(self, st, ref, name, v):
        o = st.get(ref)
        a = dict(o["attrs"])
        a[name] = v
        st.upd(ref, attrs=a)

    def op_STORE_GLOBAL(self, st, fr, op):
        v = fr.stack.pop()
        self.w.on_global_write(self, st, fr, op[2], v)
        self.set_attr_raw(st, fr.glob, op[2], v)

    def op_LOAD_LOCALS(self, st, fr, op):
        fr.stack.append(fr.ns)

    def op_MAKE_CELL(self, st, fr, op):
        v = fr.loc[op[1]]
        fr.loc[op[1]] = st.new("cell", v=v)

    def op_COPY_FREE_VARS(self, st, fr, op):
        for i, c in enumerate(fr.closure):
            fr.loc[fr.code.nfree + i] = c

    def op_LOAD_CLOSURE(self, st, fr, op):
        fr.stack.append(fr.loc[op[1]])

    def op_LOAD_DEREF(self, st, fr, op):
        v = st.get(fr.loc[op[1]])["v"]
        if v is None:
            self.throw_unbound(st, fr, op)
        fr.stack.append(v)

    def op_STORE_DEREF(self, st, fr, op):
        v = fr.stack.pop()
        st.upd(fr.loc[op[1]], v=v)

    def op_DELETE_DEREF(self, st, fr, op):
        st.upd(fr.loc[op[1]], v=None)

    def op_LOAD_FROM_DICT_OR_DEREF(self, st, fr, op):
        d = fr.stack.pop()
        a = st.get(d)["attrs"]
        n = fr.code.localsplus[op[1]]
        if n in a:
            fr.stack.append(a[n])
        else:
            self.op_LOAD_DEREF(st, fr, op)

    def op_LOAD_FROM_DICT_OR_GLOBALS(self, st, fr, op):
        d = fr.stack.pop()
        a = st.get(d)["attrs"]
        fr.stack.append(a[op[2]] if op[2] in a else self.load_global(st, fr, op[2]))

    # functions and classes
    def op_MAKE_FUNCTION(self, st, fr, op):
        co = fr.stack.pop()[1]
        closure, defaults, kwd = (), (), {}
        if op[1] & 8:
            closure = fr.stack.pop()[1]
        if op[1] & 4:
            fr.stack.pop()
        if op[1] & 2:
            d = fr.stack.pop()
            kwd = {kval(s[1]): s[2] for s in st.get(d)["segs"]}
        if op[1] & 1:
            defaults = fr.stack.pop()[1]
        code = self.prog.code(co, fr.code.module)
        fr.stack.append(st.new("func", code=code, glob=fr.glob, defaults=defaults, kwdefaults=kwd, closure=closure, attrs={}))

    def op_CALL(self, st, fr, op):
        n = op[1]
        args = fr.stack[len(fr.stack) - n:] if n else []
        if n:
            del fr.stack[len(fr.stack) - n:]
        b = fr.stack.pop()
        a = fr.stack.pop()
        if a != NULL:
            f = a
            args = [b] + args
        else:
            f = b
        kwn = fr.kwn
        fr.kwn = ()
        kw = {}
        if kwn:
            k = len(kwn)
            kw = dict(zip(kwn, args[-k:]))
            args = args[:-k]
        fr.stack.append(self.call(st, f, args, kw))

    def op_CALL_FUNCTION_EX(self, st, fr, op):
        kw = {}
        more_kw = None
        if op[1] & 1:
            d = fr.stack.pop()
            if d[0] == "r":
                o = st.get(d)
                for s in o["segs"]:
                    if s[0] == "i" and is_k(s[1]):
                        kw[kval(s[1])] = s[2]
                    else:
                        more_kw = (more_kw or ()) + (s,)
            else:
                more_kw = (("s", d),)
        a = fr.stack.pop()
        f = fr.stack.pop()
        fr.stack.pop()
        star = None
        if a[0] == "tup":
            args = list(a[1])
        elif a[0] == "r":
            args = []
            for s in st.get(a)["segs"]:
                if s[0] == "i":
                    args.append(s[1])
                else:
                    args.append(("star", s))
        else:
            args = [("star", ("s", a))]
        if more_kw:
            kw["**"] = ("starkw", more_kw)
        fr.stack.append(self.call(st, f, args, kw))

    def op_CALL_INTRINSIC_1(self, st, fr, op):
        v = fr.stack.pop()
        if op[1] == 6:      # list to tuple
            fr.stack.append(self.models.to_tuple(self, st, v))
        elif op[1] == 3:    # StopIteration error
            names = self.exc_names(st, st.get(v)["cls"])
            if "StopIteration" in names:
                v = self.new_exc(st, "RuntimeError", K("generator raised StopIteration"))
            fr.stack.append(v)
        elif op[1] == 5:
            fr.stack.append(v)
        elif op[1] == 2:
            raise Unsupported("import *")
        else:
            fr.stack.append(v)

    protecting = False

    def crossing(self, st, f, args, kw):
        """the scenario calls into the package: what it hands over is not to be changed"""
        g = f[1] if f[0] == "bm" else f
        if g[0] != "r":
            return
        o = st.get(g)
        if o["kind"] == "func":
            mod, name = o["code"].module, o["code"].qualname
        elif o["kind"] == "class":
            mod, name = o.get("module", ""), o["name"]
        else:
            return
        if mod.split(".")[0] == "clevercsv":
            self.crossings.add(mod + "." + name)
            if f[0] != "bm" and "." in name and args and args[0][0] == "r" and st.get(args[0])["kind"] == "inst" and o["kind"] == "func":
                own = name.split(".")[-2]
                if any(c[0] == "r" and st.get(c)["name"] == own for c in self.mro(st, st.get(args[0])["cls"])):
                    args = args[1:]
            protect(st, list(args), "an argument of %s is modified" % name)
            protect(st, dict(kw), "an argument of %s is modified" % name)

    def call(self, st, f, args, kw):
        """value of a call, or raises Pushed after pushing a frame"""
        r = self.w.intercept(self, st, f, args, kw)
        if r is not None:
            return r
        if self.protecting and st.frames and st.frames[-1].code.module == "vp_harness":
            self.crossing(st, f, args, kw)
        h = f[0]
        if h == "r":
            o = st.get(f)
            k = o["kind"]
            if k == "func":
                return self.call_func(st, f, args, kw)
            if k == "class":
                return self.models.instantiate_class(self, st, f, args, kw)
            if k == "bmref":
                return self.call(st, o["func"], [o["self"]] + args, kw)
            if k == "partial":
                return self.call(st, o["func"], list(o["args"]) + args, dict(o["kw"], **kw))
            if k == "inst":
                m = self.lookup_class_attr(st, o["cls"], "__call__")
                if m is not None:
                    return self.call(st, m, [f] + args, kw)
            return self.models.call_object(self, st, f, args, kw)
        if h == "bm":
            return self.call(st, f[1], [f[2]] + list(args), kw)
        if h == "ebm":
            return self.models.call_method(self, st, f[1], f[2], args, kw)
        if h == "ext":
            return self.models.call_ext(self, st, f[1], args, kw)
        if h == "t":
            return self.models.call_opaque(self, st, f, args, kw)
        if h == "k" and f[1] == "NoneType":
            self.throw(st, "TypeError", "'NoneType' object is not callable")
        raise Unsupported("call of %r" % (f,))

    def bind(self, st, o, args, kw):
        """binds arguments; returns list of locals"""
        code = o["code"]
        n = code.argcount
        names = code.localsplus
        loc = [None] * len(names)
        star = [a for a in args if a[0] == "star"]
        kw = dict(kw)
        skw = kw.pop("**", None)
        if star:
            # spread of something of unknown length: only into *args
            pos = [a for a in args if a[0] != "star"]
            if len(pos) < n and not (code.varargs and args.index(star[0]) >= n):
                # the spread may supply remaining parameters: assume it fits
                return self.models.bind_star(self, st, o, args, kw, skw)
            if not code.varargs:
                return self.models.bind_star(self, st, o, args, kw, skw)
        for i, a in enumerate(args[:n]):
            loc[i] = a
        extra = args[n:]
        if code.varargs:
            vi = n + code.kwonly
            if any(a[0] == "star" for a in extra):
                segs = tuple(a[1] if a[0] == "star" else ("i", a) for a in extra)
                loc[vi] = st.new("tuple", segs=segs)
            else:
                loc[vi] = ("tup", tuple(extra))
        elif extra:
            self.throw(st, "TypeError", "%s() takes %d positional arguments but %d were given" % (code.name, n, len(args)))
        allnames = names[:n + code.kwonly]
        rest = []
        for k, v in kw.items():
            if k in allnames[code.posonly:]:
                i = allnames.index(k)
                if loc[i] is not None:
                    self.throw(st, "TypeError", "%s() got multiple values for argument '%s'" % (code.name, k))
                loc[i] = v
            elif code.varkw:
                rest.append(("i", K(k), v))
            else:
                self.throw(st, "TypeError", "%s() got an unexpected keyword argument '%s'" % (code.name, k))
        if code.varkw:
            segs = tuple(rest)
            if skw is not None:
                segs += tuple(skw[1])
            loc[n + code.kwonly + (1 if code.varargs else 0)] = st.new("dict", segs=segs)
        elif skw is not None:
            return self.models.bind_star(self, st, o, args, kw, skw)
        d = o["defaults"]
        for i in range(n):
            if loc[i] is None:
                j = i - (n - len(d))
                if j < 0:
                    self.throw(st, "TypeError", "%s() missing argument '%s'" % (code.name, names[i]))
                loc[i] = d[j]
        for i in range(n, n + code.kwonly):
            if loc[i] is None:
                if names[i] not in o["kwdefaults"]:
                    self.throw(st, "TypeError", "%s() missing keyword argument '%s'" % (code.name, names[i]))
                loc[i] = o["kwdefaults"][names[i]]
        return loc

    MAX_FRAMES = 60

    def call_func(self, st, f, args, kw, ret=("push",)):
        f = self.w.replace(self, st, f) or f
        o = st.get(f)
        code = o["code"]
        self.functions.add((code.module, code.qualname))
        if len(st.frames) > self.MAX_FRAMES:
            raise Unsupported("recursion too deep in %s" % code.qualname)
        loc = self.bind(st, o, list(args), kw)
        self.w.enter(self, st, f, code, loc)
        nf = Frame(code, o["glob"], loc, ret=ret, closure=o["closure"], func=f)
        st.own_top()
        st.frames.append(nf)
        raise Pushed()

    def call_with_ret(self, st, f, args, kw, ret):
        """call whose result is post-processed by `ret` (see do_return)"""
        if f[0] == "bm":
            return self.call_with_ret(st, f[1], [f[2]] + list(args), kw, ret)
        if f[0] == "r" and st.get(f)["kind"] == "func":
            r = self.w.intercept(self, st, f, args, kw)
            if r is None:
                return self.call_func(st, f, args, kw, ret)
            return self.post(st, r, ret)
        r = self.call(st, f, args, kw)
        return self.post(st, r, ret)

    def post(self, st, v, ret):
        k = ret[0]
        if k == "inst":
            return ret[1]
        if k in ("bool", "notbool") and v == ("ext", "builtins.NotImplemented"):
            return K(k == "notbool")
        if k == "bool":
            return K(self.truth(st, v))
        if k == "notbool":
            return K(not self.truth(st, v))
        if k == "ne":
            if v == ("ext", "builtins.NotImplemented"):
                return K(not self.truth(st, ret[1]))
            return K(not self.truth(st, v))
        if k == "const":
            return ret[1]
        if k == "cmp" and v == ("ext", "builtins.NotImplemented"):
            self.throw(st, "TypeError", "comparison not supported between these instances")
        return v

    def do_return(self, st, v):
        fr = st.frames[-1]
        self.w.leave(self, st, fr, v, None)
        st.frames.pop()
        if fr.gen is not None:
            st.upd(fr.gen, frame=None, state="done")
            r = fr.ret
            st.own_top()
            up = st.frames[-1]
            if r[0] == "foriter":
                self.iter_end(st, up, r)
                return
            if r[0] == "send":
                up.stack.append(v)
                up.pc = up.code.offidx[r[1]]
                return
            if r[0] == "close":
                up.stack.append(NONE)
                return
            if r[0] == "closethen":
                raise PyRaise(r[1])
            if r[0] == "nextdef":
                up.stack.append(r[1])
                return
            exc = self.new_exc(st, "StopIteration", v)
            raise PyRaise(exc)
        if not st.frames:
            self.finish(st, v, None)
            return
        st.own_top()
        up = st.frames[-1]
        r = fr.ret
        if r[0] == "class":
            v = self.models.make_class(self, st, r[1], r[2], r[3], r[4])
            if v is None:
                return
        elif r[0] == "module":
            st.upd(r[1], loaded=True)
            if r[2] is not None:
                v = r[2]
            else:
                v = r[1]
        elif r[0] in ("inst", "bool", "notbool", "ne", "const", "cmp"):
            v = self.post(st, v, r)
        elif r[0] == "rerun":
            # the call only had side effects; the instruction is run again
            up.pc -= 1
            return
        elif r[0] == "drop":
            return
        elif r[0] == "enter":
            up.stack.append(r[1])
        up.stack.append(v)

    def op_RETURN_VALUE(self, st, fr, op):
        self.do_return(st, fr.stack.pop())

    def op_RETURN_CONST(self, st, fr, op):
        self.do_return(st, K(op[2]))

    # generators
    def op_RETURN_GENERATOR(self, st, fr, op):
        g = st.new("gen", frame=None, state="start", name=fr.code.qualname)
        f = fr.copy()
        f.gen = g
        f.ret = ("push",)
        st.upd(g, frame=f)
        st.frames.pop()
        st.own_top()
        r = fr.ret
        v = self.post(st, g, r) if r[0] in ("inst", "bool", "notbool", "const") else g
        st.frames[-1].stack.append(v)
        self.w.new_generator(self, st, g, fr)

    def resume(self, st, g, v, ret, exc=None):
        """resumes generator g (a frame is pushed)"""
        o = st.get(g)
        if o["frame"] is None:
            if o["state"] == "running":
                self.throw(st, "ValueError", "generator already executing")
            return False
        f = o["frame"].copy()
        f.ret = ret
        st.upd(g, frame=None, state="running")
        st.own_top()
        if exc is None:
            f.stack.append(v)
        st.frames.append(f)
        return True

    def op_YIELD_VALUE(self, st, fr, op):
        v = fr.stack.pop()
        g = fr.gen
        f = fr.copy()
        f.ret = ("push",)
        st.frames.pop()
        st.upd(g, frame=f, state="suspended")
        st.own_top()
        up = st.frames[-1]
        r = fr.ret
        if r[0] == "close":
            raise PyRaise(self.new_exc(st, "RuntimeError", K("generator ignored GeneratorExit")))
        up.stack.append(v)

    def op_GET_YIELD_FROM_ITER(self, st, fr, op):
        v = fr.stack.pop()
        if v[0] == "r" and st.get(v)["kind"] == "gen":
            fr.stack.append(v)
            return
        fr.stack.append(self.get_iter(st, v))

    def op_SEND(self, st, fr, op):
        fr.stack.pop()      # sent value (None)
        it = fr.stack[-1]
        o = st.get(it) if it[0] == "r" else None
        if o is not None and o["kind"] == "gen":
            if self.resume(st, it, NONE, ("send", op[2])):
                raise Pushed()
            fr.stack.append(NONE)
            fr.pc = fr.code.offidx[op[2]]
            return
        self.next_value(st, fr, it, ("sendend", op[2]))

    def op_CLEANUP_THROW(self, st, fr, op):
        exc = fr.stack.pop()
        fr.stack.pop()
        it = fr.stack.pop()
        # close the inner generator when it is suspended
        names = self.exc_names(st, st.get(exc)["cls"])
        if "StopIteration" in names:
            fr.stack.append(NONE)
            fr.stack.append(NONE)
            return
        raise PyRaise(exc)

    # iteration
    def op_GET_ITER(self, st, fr, op):
        v = fr.stack.pop()
        fr.stack.append(self.get_iter(st, v))

    def get_iter(self, st, v):
        return self.models.get_iter(self, st, v)

    def op_FOR_ITER(self, st, fr, op):
        it = fr.stack[-1]
        self.next_value(st, fr, it, ("foriter", op[2]))

    def iter_end(self, st, fr, r):
        """the iterator of a loop is exhausted"""
        if r[0] == "foriter":
            fr.stack.pop()
            fr.pc = fr.code.offidx[r[1]] + 1
        else:
            fr.stack.append(NONE)
            fr.pc = fr.code.offidx[r[1]]

    def next_value(self, st, fr, it, r):
        """pushes the next value of iterator `it` or ends according to r"""
        v = self.models.next_of(self, st, it, r)
        if v is None:
            self.iter_end(st, fr, r)
        else:
            fr.stack.append(v)

    # attributes
    def op_LOAD_ATTR(self, st, fr, op):
        o = fr.stack.pop()
        if op[1] & 1:
            fr.stack.append(NULL)
        fr.stack.append(self.getattr(st, o, op[2]))

    def op_LOAD_SUPER_ATTR(self, st, fr, op):
        self_ = fr.stack.pop()
        cls = fr.stack.pop()
        fr.stack.pop()
        if op[1] & 1:
            fr.stack.append(NULL)
        fr.stack.append(self.models.super_attr(self, st, cls, self_, op[2]))

    def op_STORE_ATTR(self, st, fr, op):
        o = fr.stack.pop()
        v = fr.stack.pop()
        self.setattr(st, o, op[2], v)

    def op_DELETE_ATTR(self, st, fr, op):
        o = fr.stack.pop()
        self.w.on_mutate(self, st, o, "delete attribute " + op[2], ())
        if o[0] == "r":
            a = dict(st.get(o).get("attrs", {}))
            a.pop(op[2], None)
            st.upd(o, attrs=a)

    def mro(self, st, cls):
        if cls[0] == "r":
            return st.get(cls)["mro"]
        return (cls,)

    def lookup_class_attr(self, st, cls, name):
        for c in self.mro(st, cls):
            if c[0] == "r":
                a = st.get(c)["attrs"]
                if name in a:
                    return a[name]
        return None

    def has_ext_base(self, st, cls):
        return any(c[0] == "ext" and c[1] not in ("builtins.object", "typing.Generic", "typing.Iterator", "typing.NamedTuple")
                   for c in self.mro(st, cls))

    def getattr(self, st, o, name):
        return self.models.get_attr(self, st, o, name)

    def setattr(self, st, o, name, v):
        return self.models.set_attr(self, st, o, name, v)

    # containers
    def op_BUILD_TUPLE(self, st, fr, op):
        n = op[1]
        items = tuple(fr.stack[len(fr.stack) - n:]) if n else ()
        if n:
            del fr.stack[len(fr.stack) - n:]
        fr.stack.append(("tup", items))

    def build(self, st, fr, kind, n):
        items = fr.stack[len(fr.stack) - n:] if n else []
        if n:
            del fr.stack[len(fr.stack) - n:]
        return st.new(kind, segs=tuple(("i", x) for x in items))

    def op_BUILD_LIST(self, st, fr, op):
        fr.stack.append(self.build(st, fr, "list", op[1]))

    def op_BUILD_SET(self, st, fr, op):
        n = op[1]
        items = fr.stack[len(fr.stack) - n:]
        del fr.stack[len(fr.stack) - n:]
        s = st.new("set", segs=())
        for x in items:
            self.models.set_add(self, st, s, x)
        fr.stack.append(s)

    def op_BUILD_MAP(self, st, fr, op):
        n = op[1] * 2
        items = fr.stack[len(fr.stack) - n:] if n else []
        if n:
            del fr.stack[len(fr.stack) - n:]
        d = st.new("dict", segs=())
        for i in range(0, n, 2):
            self.models.dict_set(self, st, d, items[i], items[i + 1], quiet=True)
        fr.stack.append(d)

    def op_BUILD_CONST_KEY_MAP(self, st, fr, op):
        keys = fr.stack.pop()[1]
        n = op[1]
        vals = fr.stack[len(fr.stack) - n:]
        del fr.stack[len(fr.stack) - n:]
        d = st.new("dict", segs=tuple(("i", k, v) for k, v in zip(keys, vals)))
        fr.stack.append(d)

    def op_BUILD_STRING(self, st, fr, op):
        n = op[1]
        parts = fr.stack[len(fr.stack) - n:]
        del fr.stack[len(fr.stack) - n:]
        fr.stack.append(self.models.concat(self, st, parts))

    def op_FORMAT_VALUE(self, st, fr, op):
        spec = fr.stack.pop() if op[1] & 4 else None
        v = fr.stack.pop()
        conv = op[1] & 3
        fr.stack.append(self.models.format_value(self, st, v, conv, spec))

    def op_BUILD_SLICE(self, st, fr, op):
        n = op[1]
        items = fr.stack[len(fr.stack) - n:]
        del fr.stack[len(fr.stack) - n:]
        fr.stack.append(("slice",) + tuple(items))

    def op_LIST_APPEND(self, st, fr, op):
        v = fr.stack.pop()
        l = fr.stack[-op[1]]
        st.upd(l, segs=st.get(l)["segs"] + (("i", v),))

    def op_SET_ADD(self, st, fr, op):
        v = fr.stack.pop()
        self.models.set_add(self, st, fr.stack[-op[1]], v)

    def op_MAP_ADD(self, st, fr, op):
        v = fr.stack.pop()
        k = fr.stack.pop()
        self.models.dict_set(self, st, fr.stack[-op[1]], k, v, quiet=True)

    def op_LIST_EXTEND(self, st, fr, op):
        v = fr.stack.pop()
        l = fr.stack[-op[1]]
        self.models.list_extend(self, st, l, v)

    def op_SET_UPDATE(self, st, fr, op):
        v = fr.stack.pop()
        s = fr.stack[-op[1]]
        for seg in self.models.segments(self, st, v):
            if seg[0] == "i":
                self.models.set_add(self, st, s, seg[1])
            else:
                st.upd(s, segs=st.get(s)["segs"] + (seg,))

    def op_DICT_UPDATE(self, st, fr, op):
        v = fr.stack.pop()
        self.models.dict_update(self, st, fr.stack[-op[1]], v)
    op_DICT_MERGE = op_DICT_UPDATE

    def op_UNPACK_SEQUENCE(self, st, fr, op):
        v = fr.stack.pop()
        items = self.models.unpack(self, st, v, op[1])
        for x in reversed(items):
            fr.stack.append(x)

    def op_UNPACK_EX(self, st, fr, op):
        v = fr.stack.pop()
        before, after = op[1] & 0xFF, op[1] >> 8
        segs = self.models.segments(self, st, v)
        if len(segs) == 1 and segs[0][0] == "s" and segs[0][1][0] == "t" and segs[0][1][1] in ("str.split", "str.rsplit", "str.splitlines"):
            segs = self.models.split_parts(self, st, segs[0][1], before + after)
        if len(segs) < before + after or any(s[0] != "i" for s in segs[:before]) or (after and any(s[0] != "i" for s in segs[-after:])):
            raise Unsupported("starred unpacking")
        mid = segs[before:len(segs) - after] if after else segs[before:]
        l = st.new("list", segs=tuple(mid))
        for s in reversed(segs[len(segs) - after:] if after else ()):
            fr.stack.append(s[1])
        fr.stack.append(l)
        for s in reversed(segs[:before]):
            fr.stack.append(s[1])

    def op_BINARY_SUBSCR(self, st, fr, op):
        k = fr.stack.pop()
        o = fr.stack.pop()
        fr.stack.append(self.models.subscr(self, st, o, k))

    def op_BINARY_SLICE(self, st, fr, op):
        e = fr.stack.pop()
        s = fr.stack.pop()
        o = fr.stack.pop()
        fr.stack.append(self.models.slice_of(self, st, o, s, e))

    def op_STORE_SUBSCR(self, st, fr, op):
        k = fr.stack.pop()
        o = fr.stack.pop()
        v = fr.stack.pop()
        self.models.store_subscr(self, st, o, k, v)

    def op_STORE_SLICE(self, st, fr, op):
        fr.stack.pop()
        fr.stack.pop()
        o = fr.stack.pop()
        v = fr.stack.pop()
        self.w.on_mutate(self, st, o, "slice assignment", (v,))
        if o[0] == "r":
            st.upd(o, segs=self.summarise(st, st.get(o)["segs"] + self.models.segments(self, st, v)))

    def op_DELETE_SUBSCR(self, st, fr, op):
        k = fr.stack.pop()
        o = fr.stack.pop()
        self.models.delete_subscr(self, st, o, k)

    # operators
    def op_BINARY_OP(self, st, fr, op):
        b = fr.stack.pop()
        a = fr.stack.pop()
        sym = op[5]
        fr.stack.append(self.models.binary(self, st, sym, a, b))

    def truth_call(self, st, fr):
        """when the value on top has a __bool__ or __len__ of its own, calls it and
        sees to it that the instruction is executed again with the result"""
        v = fr.stack[-1]
        if v[0] != "r":
            return
        f = self.models.truth_method(self, st, v)
        if f is None:
            return
        fr.stack.pop()
        fr.pc -= 1
        r = self.call_with_ret(st, f, [v], {}, ("plain",))
        fr.stack.append(r)
        raise Pushed()

    def op_UNARY_NOT(self, st, fr, op):
        self.truth_call(st, fr)
        v = fr.stack.pop()
        fr.stack.append(self.models.logical_not(self, st, v))

    def op_UNARY_NEGATIVE(self, st, fr, op):
        v = fr.stack.pop()
        if v[0] == "k":
            fr.stack.append(K(-v[2]))
        else:
            fr.stack.append(T("neg", v))

    def op_UNARY_INVERT(self, st, fr, op):
        v = fr.stack.pop()
        fr.stack.append(K(~v[2]) if v[0] == "k" else T("inv", v))

    def op_COMPARE_OP(self, st, fr, op):
        b = fr.stack.pop()
        a = fr.stack.pop()
        fr.stack.append(self.models.compare(self, st, op[2], a, b))

    def op_IS_OP(self, st, fr, op):
        b = fr.stack.pop()
        a = fr.stack.pop()
        r = self.models.is_same(self, st, a, b)
        fr.stack.append(self.models.negate(r) if op[1] else r)

    def op_CONTAINS_OP(self, st, fr, op):
        c = fr.stack.pop()
        x = fr.stack.pop()
        r = self.models.contains(self, st, x, c, bool(op[1]))
        fr.stack.append(r)

    # control
    def truth(self, st, v):
        return self.models.truth(self, st, v)

    def jump(self, fr, off):
        fr.pc = fr.code.offidx[off]

    def op_POP_JUMP_IF_FALSE(self, st, fr, op):
        self.truth_call(st, fr)
        v = fr.stack.pop()
        if not self.truth(st, v):
            self.jump(fr, op[2])

    def op_POP_JUMP_IF_TRUE(self, st, fr, op):
        self.truth_call(st, fr)
        v = fr.stack.pop()
        if self.truth(st, v):
            self.jump(fr, op[2])

    def op_POP_JUMP_IF_NONE(self, st, fr, op):
        v = fr.stack.pop()
        r = self.models.is_same(self, st, v, NONE)
        if self.truth(st, r):
            self.jump(fr, op[2])

    def op_POP_JUMP_IF_NOT_NONE(self, st, fr, op):
        v = fr.stack.pop()
        r = self.models.is_same(self, st, v, NONE)
        if not self.truth(st, r):
            self.jump(fr, op[2])

    def op_JUMP_FORWARD(self, st, fr, op):
        self.jump(fr, op[2])
    op_JUMP_BACKWARD = op_JUMP_FORWARD
    op_JUMP_BACKWARD_NO_INTERRUPT = op_JUMP_FORWARD

    # exceptions
    def op_PUSH_EXC_INFO(self, st, fr, op):
        v = fr.stack.pop()
        fr.stack.append(fr.exc)
        fr.exc = v
        fr.stack.append(v)

    def op_POP_EXCEPT(self, st, fr, op):
        fr.exc = fr.stack.pop()

    def op_CHECK_EXC_MATCH(self, st, fr, op):
        c = fr.stack.pop()
        e = fr.stack[-1]
        fr.stack.append(K(self.exc_match(st, e, c)))

    def op_RERAISE(self, st, fr, op):
        e = fr.stack.pop()
        if op[1]:
            pass
        raise PyRaise(e)

    def op_RAISE_VARARGS(self, st, fr, op):
        if op[1] == 0:
            e = NONE
            for f in reversed(st.frames):
                if f.exc != NONE:
                    e = f.exc
                    break
            if e == NONE:
                self.throw(st, "RuntimeError", "No active exception to reraise")
            raise PyRaise(e)
        if op[1] == 2:
            fr.stack.pop()
        e = fr.stack.pop()
        e = self.models.make_exception(self, st, e)
        raise PyRaise(e)

    def op_BEFORE_WITH(self, st, fr, op):
        m = fr.stack.pop()
        enter, exit_ = self.models.with_methods(self, st, m)
        fr.stack.append(exit_)
        r = self.call(st, enter, [], {})
        fr.stack.append(r)

    def op_WITH_EXCEPT_START(self, st, fr, op):
        exc = fr.stack[-1]
        f = fr.stack[-4]
        cls = st.get(exc)["cls"]
        fr.stack.append(self.call(st, f, [cls, exc, NONE], {}))

    # imports
    def op_IMPORT_NAME(self, st, fr, op):
        fromlist = fr.stack.pop()
        level = kval(fr.stack.pop())
        name = op[2]
        self.prog.import_name(self, st, fr, name, level, fromlist)

    def op_IMPORT_FROM(self, st, fr, op):
        m = fr.stack[-1]
        if m[0] == "r":
            o = st.get(m)
            if op[2] in o["attrs"]:
                fr.stack.append(o["attrs"][op[2]])
                return
            sub = o["name"] + "." + op[2]
            v = self.prog.import_module(self, st, sub, ("drop2",))
            if v is not None:
                fr.stack.append(v)
                return
            raise PyRaise(self.new_exc(st, "ImportError", K(op[2])))
        fr.stack.append(self.models.ext_attr(m, op[2]))


def hash_key(k):
    try:
        return k if hash(k) is not None else None
    except TypeError:
        return repr(k)
