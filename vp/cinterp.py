# -*- coding: utf-8 -*-
"""Abstract interpreter over LLVM IR with finite-state exploration.

Abstract values
  int                    a known machine integer (or null pointer)
  ('l', p, r, f, c)      p*P + r*R + f*F + c   (P: index base, R: characters
                         from P to the end of the line, F: stored length base)
  ('chr', X)             a character of class X
  ('b', obj, idx)        pointer into a heap buffer (element index)
  ('p', obj, off)        pointer into a cell object (byte offset)
  ('o', obj)             pointer to an interpreter object
  ('g', name)            address of an external global
  ('f', name)            function
  ('exc', name)          exception class object
  ('top', unit)          any integer
  ('undef',)             indeterminate

States are merged when equal after renaming of objects and removal of dead
values, so the exploration ends with the whole reachable abstract state space.
"""
import time
from collections import deque
from .llir import IRError


class Unsupported(Exception):
    """The analysis cannot represent something (not a violation)."""

    def __init__(self, msg, ins=None):
        Exception.__init__(self, msg)
        self.ins = ins


class Violation(Exception):
    def __init__(self, rule, msg, ins=None):
        Exception.__init__(self, "%s: %s" % (rule, msg))
        self.rule, self.msg, self.ins = rule, msg, ins


class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts  # list of (label, fn(state))


class Terminal(Exception):
    pass


class Prune(Exception):
    """path abandoned (bounded exploration)"""


UNDEF = ("undef",)
HUGE = 1 << 48


def lin(p, r, f, c):
    if p == 0 and r == 0 and f == 0:
        return c
    return ("l", p, r, f, c)


def is_lin(v):
    return isinstance(v, int) or (isinstance(v, tuple) and v[0] == "l")


def parts(v):
    return (0, 0, 0, v) if isinstance(v, int) else v[1:]


def ladd(a, b, sign=1):
    x, y = parts(a), parts(b)
    return lin(*(i + sign * j for i, j in zip(x, y)))


class Frame:
    __slots__ = ("fn", "block", "idx", "prev", "regs", "ret_to")

    def __init__(self, fn):
        self.fn = fn
        self.block = fn.blocks[fn.entry]
        self.idx = 0
        self.prev = None
        self.regs = {}

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.idx, f.prev = self.fn, self.block, self.idx, self.prev
        f.regs = dict(self.regs)
        return f


class State:
    __slots__ = ("frames", "mem", "nid", "w", "facts", "forced", "trace")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.nid = 0
        self.w = None       # world state (has copy() and key())
        self.facts = {"P": (0, 0), "R": (0, None), "F": (0, 0)}
        self.forced = None
        self.trace = None

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = {k: (v.copy() if isinstance(v, dict) else v) for k, v in self.mem.items()}
        s.nid = self.nid
        s.w = self.w.copy()
        s.facts = dict(self.facts)
        s.forced = self.forced
        s.trace = self.trace
        return s

    def new(self, kind, **kw):
        self.nid += 1
        d = {"kind": kind}
        d.update(kw)
        self.mem[self.nid] = d
        return self.nid


def liveness(fn):
    """block name -> list of frozenset live-before for each instruction index (+ end)"""
    uses = {}
    live_in = {b: set() for b in fn.blocks}
    changed = True

    def opnds(a):
        if a.kind == "local":
            yield a.v
        elif a.kind in ("gep", "cast"):
            for x in a.v:
                for y in opnds(x):
                    yield y
        elif a.kind in ("agg",):
            for x in a.v:
                for y in opnds(x):
                    yield y

    def ins_uses(i):
        out = set()
        for a in i.args:
            out.update(opnds(a))
        if i.op == "call":
            out.update(opnds(i.x))
        return out

    phi_uses = {b: {} for b in fn.blocks}  # block -> pred -> set
    for b in fn.blocks.values():
        for i in b.instrs:
            if i.op == "phi":
                for v, p in i.x:
                    phi_uses[b.name].setdefault(p, set()).update(opnds(v))
    res = {}
    while changed:
        changed = False
        for b in reversed(list(fn.blocks.values())):
            live = set()
            for s in b.succs:
                sb = fn.blocks[s]
                l2 = set(live_in[s])
                for i in sb.instrs:
                    if i.op == "phi":
                        l2.discard(i.dest)
                    else:
                        break
                live |= l2
                live |= phi_uses[s].get(b.name, set())
            seq = [None] * (len(b.instrs) + 1)
            seq[len(b.instrs)] = frozenset(live)
            for k in range(len(b.instrs) - 1, -1, -1):
                i = b.instrs[k]
                if i.dest:
                    live.discard(i.dest)
                if i.op != "phi":
                    live |= ins_uses(i)
                seq[k] = frozenset(live)
            res[b.name] = seq
            if live != live_in[b.name]:
                live_in[b.name] = set(live)
                changed = True
    return res


class Interp:
    MAX_STEPS = 4000000      # per straight run between forks
    MAX_STATES = 400000
    DEADLINE = None

    def __init__(self, mod, world):
        self.mod = mod
        self.world = world
        self.live = {}
        self.gmem = {}
        self.steps = 0
        self.states = 0
        self.covered = set()
        self.calls_seen = set()
        self.violations = []
        self.terminals = 0

    # ---------------------------------------------------------- globals
    def global_addr(self, st, name):
        g = self.mod.globals.get(name)
        if g is None or g.external:
            if name in self.mod.functions or g is None:
                return ("f", name)
            return ("g", name)
        key = "G:" + name
        if key not in st.mem:
            cells = {"kind": "cells", "global": name}
            self.init_cells(st, cells, 0, g.ty, g.init)
            st.mem[key] = cells
        return ("p", key, 0)

    def init_cells(self, st, cells, off, ty, init):
        if init is None or init.kind == "undef":
            return
        if init.kind == "zero":
            self.zero_cells(cells, off, ty)
            return
        if init.kind == "agg":
            if ty.kind == "array":
                sz = self.mod.sizeof(ty.elem)
                for i, e in enumerate(init.v):
                    self.init_cells(st, cells, off + i * sz, ty.elem, e)
            else:
                self.mod.sizeof(ty)
                for o, f, e in zip(ty.offsets, ty.fields, init.v):
                    self.init_cells(st, cells, off + o, f, e)
            return
        if init.kind == "str":
            cells["bytes"] = init.v
            return
        cells[off] = self.const(st, init)

    def zero_cells(self, cells, off, ty):
        if ty.kind == "array":
            sz = self.mod.sizeof(ty.elem)
            for i in range(ty.n):
                self.zero_cells(cells, off + i * sz, ty.elem)
        elif ty.kind == "struct":
            self.mod.sizeof(ty)
            for o, f in zip(ty.offsets, ty.fields):
                self.zero_cells(cells, off + o, f)
        else:
            cells[off] = 0

    def const(self, st, o):
        k = o.kind
        if k == "int":
            return o.v
        if k == "null":
            return 0
        if k == "global":
            return self.global_addr(st, o.v)
        if k == "undef":
            return UNDEF
        if k == "gep":
            base = self.const(st, o.v[0])
            return self.gep(st, base, o.extra, [self.const(st, x) for x in o.v[1:]], None)
        if k == "cast":
            return self.const(st, o.v[0])
        if k == "zero":
            return 0
        raise Unsupported("constant %r" % (o,))

    def val(self, st, o):
        if o.kind == "local":
            try:
                return st.frames[-1].regs[o.v]
            except KeyError:
                return UNDEF
        if o.kind == "int":
            return o.v
        return self.const(st, o)

    # ---------------------------------------------------------- memory
    def gep(self, st, base, ety, idxs, ins):
        if base == 0:
            raise Violation("null-pointer", "address computed from a null pointer", ins)
        if not isinstance(base, tuple):
            raise Unsupported("gep on %r" % (base,), ins)
        if base[0] == "b":
            _, obj, i = base
            d = st.mem[obj]
            es = self.mod.sizeof(ety)
            if len(idxs) == 1 and ety.kind != "struct":
                if d.get("elemsize") is None:
                    d["elemsize"] = es
                scale = es
                k = idxs[0]
                if es != d["elemsize"]:
                    if isinstance(k, int) and (k * es) % d["elemsize"] == 0:
                        return ("b", obj, self.add(st, i, k * es // d["elemsize"], ins))
                    raise Unsupported("mixed element sizes", ins)
                return ("b", obj, self.add(st, i, k, ins))
            return self.gep_struct(st, base, ety, idxs, ins)
        if base[0] in ("p", "o"):
            off = base[2] if base[0] == "p" else 0
            obj = base[1]
            t = ety
            for n, k in enumerate(idxs):
                if not isinstance(k, int):
                    raise Unsupported("symbolic index into a fixed object", ins)
                if n == 0:
                    off += k * self.mod.sizeof(t)
                elif t.kind == "struct":
                    self.mod.sizeof(t)
                    off += t.offsets[k]
                    t = t.fields[k]
                else:
                    t = t.elem
                    off += k * self.mod.sizeof(t)
            return ("p", obj, off)
        if base[0] == "g":
            if all(isinstance(k, int) and k == 0 for k in idxs):
                return base
        raise Unsupported("gep on %r" % (base,), ins)

    def gep_struct(self, st, base, ety, idxs, ins):
        raise Unsupported("structured heap buffer", ins)

    def load(self, st, ptr, ty, ins):
        if ptr == 0:
            raise Violation("null-pointer", "load through a null pointer", ins)
        if isinstance(ptr, tuple):
            if ptr[0] == "b":
                return self.world.buf_load(self, st, ptr[1], ptr[2], ty, ins)
            if ptr[0] == "p":
                if ptr[1] not in st.mem:
                    raise Violation("use-after-free", "load from released memory", ins)
                d = st.mem[ptr[1]]
                if d.get("bytes") is not None and ty.kind == "int" and ty.bits == 8:
                    b = d["bytes"]
                    return b[ptr[2]] if ptr[2] < len(b) else 0
                if ptr[2] in d:
                    return d[ptr[2]]
                return self.world.load_missing(self, st, ptr, ty, ins)
            if ptr[0] == "g":
                return self.world.load_global(self, st, ptr[1], ins)
            if ptr[0] == "o":
                return self.world.load_missing(self, st, ("p", ptr[1], 0), ty, ins)
        raise Unsupported("load through %r" % (ptr,), ins)

    def store(self, st, ptr, v, ty, ins):
        if ptr == 0:
            raise Violation("null-pointer", "store through a null pointer", ins)
        if isinstance(ptr, tuple):
            if ptr[0] == "b":
                return self.world.buf_store(self, st, ptr[1], ptr[2], v, ty, ins)
            if ptr[0] == "p":
                if ptr[1] not in st.mem:
                    raise Violation("use-after-free", "store to released memory", ins)
                self.world.on_store(self, st, ptr, v, ins)
                st.mem[ptr[1]][ptr[2]] = v
                return
        raise Unsupported("store through %r" % (ptr,), ins)

    # ---------------------------------------------------------- arithmetic
    def add(self, st, a, b, ins, sign=1):
        if is_lin(a) and is_lin(b):
            return ladd(a, b, sign)
        if UNDEF in (a, b):
            return UNDEF
        for x in (a, b):
            if isinstance(x, tuple) and x[0] == "top":
                return x
        raise Unsupported("arithmetic on %r, %r" % (a, b), ins)

    def bounds(self, st, v):
        p, r, f, c = parts(v)
        lo = hi = c
        for coef, nm in ((p, "P"), (r, "R"), (f, "F")):
            if coef == 0:
                continue
            l, h = st.facts[nm]
            if coef > 0:
                lo = None if lo is None else lo + coef * l
                hi = None if hi is None or h is None else hi + coef * h
            else:
                hi = None if hi is None else hi + coef * l
                lo = None if lo is None or h is None else lo + coef * h
        return lo, hi

    def compare(self, st, pred, a, b, ins):
        """True / False; may raise Fork"""
        if UNDEF in (a, b):
            raise Violation("uninitialised", "decision on an uninitialised value", ins)
        if is_lin(a) and is_lin(b):
            if isinstance(a, int) and isinstance(b, int):
                return self.icmp_int(pred, a, b, ins)
            d = ladd(a, b, -1)
            while True:
                lo, hi = self.bounds(st, d)
                r = self.decide(pred, lo, hi)
                if r is not None:
                    return r
                rl, rh = st.facts["R"]
                if parts(d)[1] != 0 and rl != rh:
                    self.world.split_R(self, st)  # raises Fork
                if st.forced is not None:
                    r = st.forced
                    st.forced = None
                    return r
                dp = parts(d)
                if dp[0] == 0 and dp[1] == 0 and dp[2] in (1, -1):
                    self.refine(st, "F", pred, dp[2], dp[3])
                if dp[0] in (1, -1) and dp[1] == 0 and dp[2] == 0:
                    self.refine(st, "P", pred, dp[0], dp[3])
                self.world.imprecise(st)
                raise Fork([("%s:yes" % pred, lambda s: setattr(s, "forced", True)),
                            ("%s:no" % pred, lambda s: setattr(s, "forced", False))])
        r = self.world.compare(self, st, pred, a, b, ins)
        if r is not None:
            return r
        if st.forced is not None:
            r = st.forced
            st.forced = None
            return r
        raise Fork([("%s:yes" % pred, lambda s: setattr(s, "forced", True)),
                    ("%s:no" % pred, lambda s: setattr(s, "forced", False))])

    def refine(self, st, base, pred, coef, c):
        """fork on coef*base + c `pred` 0 by narrowing the interval of base"""
        lo, hi = st.facts[base]
        big = HUGE if hi is None else hi
        pred = pred.replace("u", "s") if pred[0] == "u" else pred
        if coef < 0:
            pred = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(pred, pred)
            c = -c
        t = -c                      # base pred t
        yes, no = {"slt": ((lo, t - 1), (t, big)), "sle": ((lo, t), (t + 1, big)),
                   "sgt": ((t + 1, big), (lo, t)), "sge": ((t, big), (lo, t - 1)),
                   "eq": ((t, t), None), "ne": (None, (t, t))}[pred]
        self.world.threshold(base, t)

        def setter(iv):
            def f(s):
                s.facts[base] = iv
            return f
        if pred in ("eq", "ne"):
            alts = [("equal", setter((t, t)))]
            if lo < t:
                alts.append(("below", setter((lo, t - 1))))
            if big > t:
                alts.append(("above", setter((t + 1, big))))
            raise Fork(alts)
        clip = lambda iv: (max(iv[0], lo), min(iv[1], big))
        raise Fork([("%s:yes" % pred, setter(clip(yes))), ("%s:no" % pred, setter(clip(no)))])

    @staticmethod
    def decide(pred, lo, hi):
        if pred == "eq":
            if lo is not None and hi is not None and lo == hi == 0:
                return True
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
        elif pred == "ne":
            r = Interp.decide("eq", lo, hi)
            return None if r is None else not r
        elif pred in ("slt", "ult"):
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        elif pred in ("sle", "ule"):
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        elif pred in ("sgt", "ugt"):
            if lo is not None and lo > 0:
                return True
            if hi is not None and hi <= 0:
                return False
        elif pred in ("sge", "uge"):
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
        return None

    @staticmethod
    def icmp_int(pred, a, b, ins):
        if pred[0] == "u":
            bits = ins.ty.bits if ins is not None and ins.ty is not None and ins.ty.kind == "int" else 64
            m = (1 << bits) - 1
            a, b = a & m, b & m
        return {"eq": a == b, "ne": a != b, "slt": a < b, "ult": a < b, "sle": a <= b, "ule": a <= b,
                "sgt": a > b, "ugt": a > b, "sge": a >= b, "uge": a >= b}[pred]

    @staticmethod
    def wrap(v, bits):
        if isinstance(v, int):
            v &= (1 << bits) - 1
            if bits > 1 and v >> (bits - 1):
                v -= 1 << bits
        return v

    # ---------------------------------------------------------- running
    def start(self, st, fname, args):
        fn = self.mod.functions[fname]
        f = Frame(fn)
        for (n, _), a in zip(fn.params, args):
            f.regs[n] = a
        st.frames.append(f)

    def run(self, st):
        """Runs until a Fork/Terminal/Violation is raised."""
        n = 0
        while True:
            n += 1
            if n > self.MAX_STEPS:
                raise Unsupported("no progress after %d steps" % n)
            fr = st.frames[-1]
            ins = fr.block.instrs[fr.idx]
            self.steps += 1
            self.step(st, fr, ins)

    def goto(self, st, fr, name):
        prev = fr.block.name
        fr.prev = prev
        fr.block = fr.fn.blocks[name]
        fr.idx = 0
        vals = []
        for i in fr.block.instrs:
            if i.op != "phi":
                break
            for v, p in i.x:
                if p == prev:
                    vals.append((i.dest, self.val(st, v)))
                    break
            else:
                raise Unsupported("phi", i)
        for d, v in vals:
            fr.regs[d] = v
        fr.idx = len(vals)

    def cond(self, st, v, ins):
        if isinstance(v, int):
            return (v & 1) != 0
        return self.compare(st, "ne", v, 0, ins)

    def step(self, st, fr, ins):
        op = ins.op
        regs = fr.regs
        if op == "load":
            regs[ins.dest] = self.load(st, self.val(st, ins.args[0]), ins.ty, ins)
        elif op == "store":
            self.store(st, self.val(st, ins.args[1]), self.val(st, ins.args[0]), ins.ty, ins)
        elif op == "getelementptr":
            regs[ins.dest] = self.gep(st, self.val(st, ins.args[0]), ins.ty, [self.val(st, a) for a in ins.args[1:]], ins)
        elif op == "icmp":
            r = self.compare(st, ins.x, self.val(st, ins.args[0]), self.val(st, ins.args[1]), ins)
            regs[ins.dest] = 1 if r else 0
        elif op == "br":
            self.covered.add((ins.fn.name, fr.block.name))
            if ins.args:
                c = self.cond(st, self.val(st, ins.args[0]), ins)
                self.goto(st, fr, ins.x[0] if c else ins.x[1])
            else:
                self.goto(st, fr, ins.x[0])
            return
        elif op == "switch":
            v = self.val(st, ins.args[0])
            for c, lbl in ins.x[1]:
                if self.compare(st, "eq", v, c, ins):
                    self.goto(st, fr, lbl)
                    return
            self.goto(st, fr, ins.x[0])
            return
        elif op == "call":
            self.call(st, fr, ins)
            return
        elif op == "ret":
            v = self.val(st, ins.args[0]) if ins.args else None
            self.do_return(st, v, ins)
            return
        elif op in ("add", "sub"):
            a, b = self.val(st, ins.args[0]), self.val(st, ins.args[1])
            r = self.add(st, a, b, ins, 1 if op == "add" else -1)
            regs[ins.dest] = self.wrap(r, ins.ty.bits)
        elif op in ("mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            regs[ins.dest] = self.binop(st, op, self.val(st, ins.args[0]), self.val(st, ins.args[1]), ins)
        elif op in ("trunc", "zext", "sext", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            v = self.val(st, ins.args[0])
            if isinstance(v, int):
                if op == "zext":
                    v &= (1 << ins.x.bits) - 1
                elif op == "sext" and ins.x.bits == 1:
                    v = -(v & 1)
                elif op == "trunc":
                    v = self.wrap(v, ins.ty.bits)
            regs[ins.dest] = v
        elif op == "select":
            c = self.cond(st, self.val(st, ins.args[0]), ins)
            regs[ins.dest] = self.val(st, ins.args[1] if c else ins.args[2])
        elif op == "alloca":
            o = st.new("cells", alloca=True)
            regs[ins.dest] = ("p", o, 0)
        elif op == "unreachable":
            raise Unsupported("unreachable executed", ins)
        else:
            raise Unsupported("instruction " + op, ins)
        fr.idx += 1

    def binop(self, st, op, a, b, ins):
        bits = ins.ty.bits
        if isinstance(a, int) and isinstance(b, int):
            m = (1 << bits) - 1
            if op == "mul":
                r = a * b
            elif op == "and":
                r = a & b
            elif op == "or":
                r = a | b
            elif op == "xor":
                r = a ^ b
            elif op == "shl":
                r = a << (b & 63)
            elif op == "lshr":
                r = (a & m) >> (b & 63)
            elif op == "ashr":
                r = a >> (b & 63)
            elif op in ("udiv", "urem"):
                if b == 0:
                    raise Violation("division", "division by zero", ins)
                r = (a & m) // (b & m) if op == "udiv" else (a & m) % (b & m)
            else:
                if b == 0:
                    raise Violation("division", "division by zero", ins)
                q = abs(a) // abs(b)
                q = q if (a < 0) == (b < 0) else -q
                r = q if op == "sdiv" else a - q * b
            return self.wrap(r, bits)
        if UNDEF in (a, b):
            return UNDEF
        return self.world.binop(self, st, op, a, b, ins)

    def do_return(self, st, v, ins):
        last = st.frames.pop()
        if not st.frames:
            try:
                if self.world.finished(self, st, v, ins):
                    return
            except Fork:
                st.frames.append(last)
                raise
            raise Terminal()
        fr = st.frames[-1]
        call = fr.block.instrs[fr.idx]
        if call.dest:
            fr.regs[call.dest] = v
        fr.idx += 1

    def call(self, st, fr, ins):
        callee = ins.x
        if callee.kind == "global":
            name = callee.v
        else:
            v = self.val(st, callee)
            if v == 0:
                raise Violation("null-pointer", "call through a null pointer", ins)
            if isinstance(v, tuple) and v[0] == "f":
                name = v[1]
            else:
                raise Unsupported("indirect call", ins)
        if name in self.mod.functions:
            args = [self.val(st, a) for a in ins.args]
            if len(st.frames) > 40:
                raise Unsupported("recursion", ins)
            self.start(st, name, args)
            return
        args = [self.val(st, a) for a in ins.args]
        self.calls_seen.add((ins.fn.name, name, ins.line))
        r = self.world.api(self, st, name, args, ins)
        if ins.dest:
            fr.regs[ins.dest] = r
        fr.idx += 1

    # ---------------------------------------------------------- exploration
    def frame_live(self, fr, top):
        fn = fr.fn
        if fn.name not in self.live:
            self.live[fn.name] = liveness(fn)
        L = self.live[fn.name][fr.block.name]
        if top:
            return L[fr.idx]
        ins = fr.block.instrs[fr.idx]
        l = L[fr.idx + 1]
        return l - {ins.dest} if ins.dest else l

    def key(self, st):
        ren = {}
        out = []

        def cv(v):
            if isinstance(v, tuple):
                t = v[0]
                if t in ("p", "b"):
                    return (t, ref(v[1]), cv(v[2]))
                if t == "o":
                    return (t, ref(v[1]))
            return v

        queue = []

        def ref(o):
            if isinstance(o, str):
                if o not in ren:
                    ren[o] = o
                    queue.append(o)
                return o
            if o not in ren:
                ren[o] = len(ren)
                queue.append(o)
            return ren[o]

        for i, fr in enumerate(st.frames):
            live = self.frame_live(fr, i == len(st.frames) - 1)
            out.append((fr.fn.name, fr.block.name, fr.idx,
                        tuple((n, cv(fr.regs[n])) for n in sorted(live) if n in fr.regs)))
        out.append(st.w.key(cv))
        out.append(tuple(sorted(st.facts.items())))
        fo = st.forced
        out.append(("v", cv(fo[1])) if isinstance(fo, tuple) else fo)
        k = 0
        while k < len(queue):
            o = queue[k]
            k += 1
            d = st.mem.get(o)
            if d is None:
                out.append((o if isinstance(o, str) else ren[o], None))
                continue
            if isinstance(o, str) and d.get("global") and self.mod.globals[d["global"]].const:
                continue
            items = []
            for kk in sorted(d, key=str):
                if self.world.dead_field(d["kind"], kk):
                    continue
                vv = d[kk]
                items.append((kk, cv(vv) if isinstance(vv, tuple) else vv))
            out.append((o if isinstance(o, str) else ren[o], tuple(items)))
        return tuple(out)

    def gc(self, st):
        """drop unreachable objects and dead registers"""
        seen = set()
        stack = []

        def visit(v):
            if isinstance(v, tuple):
                if v[0] in ("p", "b", "o"):
                    if v[1] not in seen:
                        seen.add(v[1])
                        stack.append(v[1])
                else:
                    for x in v:
                        if isinstance(x, tuple):
                            visit(x)

        n = len(st.frames)
        for i, fr in enumerate(st.frames):
            live = self.frame_live(fr, i == n - 1)
            fr.regs = {k: v for k, v in fr.regs.items() if k in live}
            for v in fr.regs.values():
                visit(v)
        for v in st.w.roots():
            visit(v)
        if isinstance(st.forced, tuple):
            visit(st.forced)
        while stack:
            o = stack.pop()
            d = st.mem.get(o)
            if d:
                for v in list(d.values()):
                    visit(v)
        for o in list(st.mem):
            if o not in seen and not isinstance(o, str):
                del st.mem[o]

    def explore(self, init, stop_on_violation=False, max_violations=20):
        visited = set()
        work = deque([init])
        while work:
            st = work.popleft()
            try:
                self.run(st)
            except Fork as f:
                self.world.canonicalise(self, st)
                self.gc(st)
                for label, fn in f.alts:
                    s = st.copy()
                    fn(s)
                    s.trace = (st.trace, label)
                    k = self.key(s)
                    if k in visited:
                        continue
                    visited.add(k)
                    work.append(s)
                self.states = len(visited)
                if self.DEADLINE is not None and time.time() > self.DEADLINE:
                    raise Unsupported("exploration ran out of time at %d abstract states" % self.states)
                if self.states > self.MAX_STATES:
                    raise Unsupported("more than %d abstract states" % self.MAX_STATES)
            except (Terminal, Prune):
                self.terminals += 1
            except Violation as v:
                v.trace = trace_list(st.trace)
                v.stack = [(f.fn.srcname, f.block.instrs[min(f.idx, len(f.block.instrs) - 1)].line) for f in st.frames]
                v.world = st.w
                self.violations.append(v)
                if stop_on_violation or len(self.violations) >= max_violations:
                    return
        return


def trace_list(t):
    out = []
    while t is not None:
        out.append(t[1])
        t = t[0]
    out.reverse()
    return out
