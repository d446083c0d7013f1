# -*- coding: utf-8 -*-
"""Abstract interpreter for the C units with relational integers (zone.Rel) and
ownership of every object: unbounded lengths, every failure of every call.

A state is a discrete part (control point, pointers, reference counts, small
integers, pending exception) and one Rel over the integers it mentions; states
with the same discrete part are joined and widened until nothing changes.

Integer values:  int, or ('v', x, c) for x + c.
"""
import time
from collections import deque
from fractions import Fraction

from .cinterp import Interp, Frame, State, Unsupported, Violation, Fork, Terminal, Prune, UNDEF, liveness, trace_list
from .zone import Rel
from . import llir

BIG = 1 << 62
PENDING = object()      # the call continues in a pushed frame


class Anchor(Exception):
    pass


class ZFrame(Frame):
    __slots__ = ("cb",)

    def __init__(self, fn):
        Frame.__init__(self, fn)
        self.cb = None

    def copy(self):
        f = ZFrame.__new__(ZFrame)
        f.fn, f.block, f.idx, f.prev, f.cb = self.fn, self.block, self.idx, self.prev, self.cb
        f.regs = dict(self.regs)
        return f


class ZState(State):
    def copy(self):
        s = ZState.__new__(ZState)
        s.frames = [f.copy() for f in self.frames]
        s.mem = {k: (dict(v) if isinstance(v, dict) else v) for k, v in self.mem.items()}
        s.nid = self.nid
        s.w = self.w.copy()
        s.facts = self.facts.copy()
        s.forced = self.forced
        s.trace = self.trace
        return s


def isnum(v):
    return isinstance(v, int) or (isinstance(v, tuple) and v[0] == "v")


def expr(v):
    if isinstance(v, int):
        return {None: v}
    return {v[1]: 1, None: v[2]}


def eadd(a, b, k=1):
    e = dict(a)
    for x, c in b.items():
        e[x] = e.get(x, 0) + k * c
    for x in [x for x in e if e[x] == 0 and x is not None]:
        del e[x]
    e.setdefault(None, 0)
    return e


class ZInterp(Interp):
    def __init__(self, mod, world):
        Interp.__init__(self, mod, world)
        self.regty = {}
        for fn in mod.functions.values():
            for n, t in fn.params:
                self.regty[(fn.name, n)] = t
            for b in fn.blocks.values():
                for i in b.instrs:
                    if i.dest:
                        t = i.x if i.op in ("zext", "sext", "bitcast", "ptrtoint") and hasattr(i.x, "kind") else i.ty
                        if i.op == "trunc":
                            t = None
                        self.regty[(fn.name, i.dest)] = t
        self.cell64 = set()
        self.cell32 = set()
        self.seen = {}
        self.table = {}
        self.merges = 0

    # ------------------------------------------------------------ numbers
    def fresh(self, st):
        st.w.nv += 1
        return st.w.nv

    def var(self, st, lo=None, hi=None):
        x = self.fresh(st)
        if lo is not None:
            st.facts.add_le(0, x, -lo)
        if hi is not None:
            st.facts.add_le(x, 0, hi)
        return ("v", x, 0)

    def linear(self, st, e):
        """a value equal to a linear expression"""
        vs = [k for k in e if k is not None]
        if not vs:
            return int(e[None])
        if len(vs) == 1 and e[vs[0]] == 1:
            return ("v", vs[0], int(e[None]))
        f = st.facts
        x = self.fresh(st)
        hi, lo = f.upper(e), f.lower(e)
        rel = []
        for y in f.vars():
            u = f.upper(eadd(e, {y: 1}, -1), 1)
            l = f.lower(eadd(e, {y: 1}, -1))
            rel.append((y, u, l))
        if hi is not None:
            f.add_le(x, 0, int(hi // 1))
        if lo is not None:
            f.add_le(0, x, int((-lo) // 1))
        for y, u, l in rel:
            if u is not None:
                f.add_le(x, y, int(u // 1))
            if l is not None:
                f.add_le(y, x, int((-l) // 1))
        row = {k: Fraction(c) for k, c in e.items()}
        row[x] = Fraction(-1)
        f.add_eq(row)
        return ("v", x, 0)

    def add(self, st, a, b, ins, sign=1):
        if UNDEF in (a, b):
            return UNDEF
        if isnum(a) and isnum(b):
            if isinstance(b, int):
                return a + sign * b if isinstance(a, int) else ("v", a[1], a[2] + sign * b)
            if isinstance(a, int) and sign == 1:
                return ("v", b[1], b[2] + a)
            return self.linear(st, eadd(expr(a), expr(b), sign))
        for x in (a, b):
            if isinstance(x, tuple) and x[0] == "top":
                return x
        raise Unsupported("arithmetic on %r, %r" % (a, b), ins)

    def upper(self, st, e):
        return st.facts.upper(e)

    def lower(self, st, e):
        return st.facts.lower(e)

    @staticmethod
    def assume_le(s, e):
        """adds e <= 0; False when impossible"""
        vs = [k for k in e if k is not None]
        c = e.get(None, 0)
        if not vs:
            return c <= 0
        if len(vs) == 1:
            a = e[vs[0]]
            if a > 0:
                return s.facts.add_le(vs[0], 0, (-c) // a)
            return s.facts.add_le(0, vs[0], (-c) // (-a))
        if len(vs) == 2:
            x, y = vs
            if e[x] == 1 and e[y] == -1:
                return s.facts.add_le(x, y, -c)
            if e[x] == -1 and e[y] == 1:
                return s.facts.add_le(y, x, -c)
        return True

    def decide_num(self, st, pred, e):
        hi, lo = self.upper(st, e), self.lower(st, e)
        return self.decide(pred, lo, hi)

    def compare(self, st, pred, a, b, ins):
        if UNDEF in (a, b):
            raise Violation("uninitialised", "a decision depends on memory that was never set", ins)
        if isinstance(a, int) and isinstance(b, int):
            return self.icmp_int(pred, a, b, ins)
        if isnum(a) and isnum(b):
            if pred[0] == "u":
                for x in (a, b):
                    if isinstance(x, int):
                        if x < 0:
                            raise Unsupported("unsigned comparison with a large constant", ins)
                        continue
                    e = expr(x)
                    lo, hi = self.lower(st, e), self.upper(st, e)
                    if lo is not None and lo >= 0:
                        continue
                    if hi is not None and hi < 0:
                        continue
                    raise Fork([("non-negative", lambda s, e=e: self.assume_le(s, eadd({None: 0}, e, -1))),
                                ("negative", lambda s, e=e: self.assume_le(s, eadd(e, {None: 1})))])
                neg = []
                for x in (a, b):
                    hi = x if isinstance(x, int) else self.upper(st, expr(x))
                    neg.append(hi is not None and hi < 0)
                if neg[0] != neg[1]:
                    # the negative one is a huge number
                    big_a = neg[0]
                    return {"ult": not big_a, "ule": not big_a, "ugt": big_a, "uge": big_a}[pred]
                pred = "s" + pred[1:]
            e = eadd(expr(a), expr(b), -1)
            r = self.decide_num(st, pred, e)
            if r is not None:
                return r
            ne = eadd({None: 0}, e, -1)
            one = {None: 1}
            le = lambda s: self.assume_le(s, e)                 # a <= b
            lt = lambda s: self.assume_le(s, eadd(e, one))      # a < b
            ge = lambda s: self.assume_le(s, ne)
            gt = lambda s: self.assume_le(s, eadd(ne, one))

            def eq(s):
                if self.assume_le(s, e) is False or self.assume_le(s, ne) is False:
                    return False
                return s.facts.add_eq({k: Fraction(c) for k, c in e.items()})
            alts = {"slt": [("less", lt), ("not less", ge)], "sge": [("less", lt), ("not less", ge)],
                    "sle": [("at most", le), ("more", gt)], "sgt": [("at most", le), ("more", gt)],
                    "eq": [("equal", eq), ("less", lt), ("more", gt)], "ne": [("equal", eq), ("less", lt), ("more", gt)]}[pred]
            # an alternative that does not decide the comparison would repeat for ever
            good = []
            for lbl, f in alts:
                t = st.copy()
                if f(t) is False:
                    continue
                if self.decide_num(t, pred, e) is None:
                    good = None
                    break
                good.append((lbl, f))
            if good is not None:
                if not good:
                    raise Prune()
                raise Fork(good)
            return self.choose(st, pred)
        r = self.world.compare(self, st, pred, a, b, ins)
        if r is not None:
            return r
        return self.choose(st, pred)

    def choose(self, st, label):
        if st.forced is not None:
            r = st.forced
            st.forced = None
            return r
        raise Fork([("%s: yes" % label, lambda s: setattr(s, "forced", True)),
                    ("%s: no" % label, lambda s: setattr(s, "forced", False))])

    def binop(self, st, op, a, b, ins):
        if isinstance(a, int) and isinstance(b, int):
            return Interp.binop(self, st, op, a, b, ins)
        if UNDEF in (a, b):
            return UNDEF
        if isnum(a) and isnum(b):
            if op == "shl" and isinstance(b, int):
                op, b = "mul", 1 << b
            if op == "mul" and (isinstance(a, int) or isinstance(b, int)):
                k, x = (a, b) if isinstance(a, int) else (b, a)
                if k == 0:
                    return 0
                return self.linear(st, {p: c * k for p, c in expr(x).items()})
            if op in ("lshr", "udiv", "sdiv", "ashr") and isinstance(b, int) and b > 0:
                lo = self.lower(st, expr(a))
                if lo is not None and lo >= 0:
                    k = (1 << b) if op in ("lshr", "ashr") else b
                    r = self.var(st, 0)
                    # exact quotients stay related
                    f = st.facts
                    u = self.upper(st, expr(a))
                    if u is not None:
                        f.add_le(r[1], 0, int(u // k))
                    self.assume_le(st, eadd(expr(r), expr(a), -1))
                    return r
            return self.var(st)
        return self.world.binop(self, st, op, a, b, ins)

    # ------------------------------------------------------------- memory
    def gep_struct(self, st, base, ety, idxs, ins):
        """an array of structures of numbers of one size is an array of numbers"""
        _, obj, i = base
        d = st.mem[obj]
        flat, t = [], ety
        if t.kind != "struct" or any(f.kind != "int" for f in t.fields) or len({self.mod.sizeof(f) for f in t.fields}) != 1:
            raise Unsupported("structured heap buffer", ins)
        es = self.mod.sizeof(t.fields[0])
        if self.mod.sizeof(t) != es * len(t.fields):
            raise Unsupported("structured heap buffer", ins)
        if d.get("elemsize") is None:
            d["elemsize"] = es
        if d["elemsize"] != es:
            raise Unsupported("mixed element sizes", ins)
        k, n = idxs[0], len(t.fields)
        if not isnum(k) or len(idxs) > 2 or len(idxs) == 2 and not isinstance(idxs[1], int):
            raise Unsupported("structured heap buffer", ins)
        off = k * n if isinstance(k, int) else self.linear(st, {x: c * n for x, c in expr(k).items()})
        r = self.add(st, i, off, ins)
        if len(idxs) == 2:
            r = self.add(st, r, idxs[1], ins)
        return ("b", obj, r)

    def store(self, st, ptr, v, ty, ins):
        if isinstance(ptr, tuple) and ptr[0] == "p" and ty is not None and ty.kind == "int" and ty.bits >= 64 and ptr[1] in st.mem:
            self.cell64.add((st.mem[ptr[1]].get("tag", st.mem[ptr[1]]["kind"]), ptr[2]))
        if isinstance(ptr, tuple) and ptr[0] == "p" and ty is not None and ty.kind == "int" and ty.bits < 64 and ptr[1] in st.mem:
            self.cell32.add((st.mem[ptr[1]].get("tag", st.mem[ptr[1]]["kind"]), ptr[2]))
        if isinstance(ptr, tuple) and ptr[0] == "p" and ptr[1] in st.mem:
            self.world.touch(self, st, ptr[1], ins)
        return Interp.store(self, st, ptr, v, ty, ins)

    def load(self, st, ptr, ty, ins):
        if isinstance(ptr, tuple) and ptr[0] in ("p", "o") and ptr[1] in st.mem:
            self.world.touch(self, st, ptr[1], ins)
        return Interp.load(self, st, ptr, ty, ins)

    # ------------------------------------------------------------ control
    def start(self, st, fname, args, cb=None):
        fn = self.mod.functions[fname]
        f = ZFrame(fn)
        f.cb = cb
        for (n, _), a in zip(fn.params, args):
            f.regs[n] = a
        st.frames.append(f)
        self.world.entered(fname)

    def do_return(self, st, v, ins):
        last = st.frames.pop()
        if not st.frames or last.cb:
            st.w.where = (last.fn.name, ins.line)
            self.world.finished(self, st, v, ins, last.cb)
            return
        fr = st.frames[-1]
        call = fr.block.instrs[fr.idx]
        if call.dest:
            fr.regs[call.dest] = v
        fr.idx += 1

    def run(self, st):
        n = 0
        while True:
            n += 1
            if n > self.MAX_STEPS:
                raise Unsupported("no progress after %d steps" % n)
            fr = st.frames[-1]
            self.steps += 1
            self.step(st, fr, fr.block.instrs[fr.idx])
            st.w.path = ()

    def step(self, st, fr, ins):
        if ins.op == "trunc":
            v = self.val(st, ins.args[0])
            if isinstance(v, tuple) and v[0] == "v":
                bits = getattr(ins.x, "bits", None) if hasattr(ins.x, "bits") else None
                src = ins.ty
                to = ins.x if hasattr(ins.x, "bits") else ins.ty
                b = to.bits
                hi, lo = self.upper(st, expr(v)), self.lower(st, expr(v))
                if hi is not None and lo is not None and lo >= -(1 << (b - 1)) and hi < (1 << (b - 1)):
                    fr.regs[ins.dest] = v
                elif b == 1:
                    raise Unsupported("parity of a number", ins)
                else:
                    fr.regs[ins.dest] = self.var(st, -(1 << (b - 1)), (1 << (b - 1)) - 1)
                fr.idx += 1
                return
        Interp.step(self, st, fr, ins)

    def call(self, st, fr, ins):
        callee = ins.x
        if callee.kind == "global":
            name = callee.v
        else:
            v = self.val(st, callee)
            if v == 0:
                raise Violation("null-pointer", "call through a null pointer", ins)
            if isinstance(v, tuple) and v[0] == "f":
                name = v[1]
            else:
                raise Unsupported("indirect call", ins)
        args = [self.val(st, a) for a in ins.args]
        if name in self.mod.functions:
            if len(st.frames) > 40:
                raise Unsupported("recursion", ins)
            self.start(st, name, args)
            return
        self.calls_seen.add((ins.fn.name, name, ins.line))
        r = self.world.api(self, st, name, args, ins)
        if r is PENDING:
            return
        if ins.dest:
            fr.regs[ins.dest] = r
        fr.idx += 1

    # --------------------------------------------------- canonical states
    def canon(self, st):
        """(discrete key, Rel over canonical variables, rewritten state)"""
        ren, order, queue, out, binds = {}, [], [], [], []

        def num(v):
            binds.append(v)
            return ("v", len(binds), 0)

        def ref(o):
            if o not in ren:
                ren[o] = o if isinstance(o, str) else len(ren)
                queue.append(o)
            return ren[o]

        def conv(v, lift):
            """-> (value for the key, value for the state)"""
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                if lift:
                    n = num(v)
                    return n, n
                return v, v
            if isinstance(v, tuple):
                t = v[0]
                if t == "v":
                    n = num(v)
                    return n, n
                if t in ("p", "b"):
                    r = ref(v[1])
                    a, b = conv(v[2], t == "b")
                    return (t, r, a), (t, v[1], b)
                if t == "o":
                    return (t, ref(v[1])), v
                if t == "top":
                    return ("top", "x"), ("top", "x")
            return v, v

        n = len(st.frames)
        for i, fr in enumerate(st.frames):
            live = self.frame_live(fr, i == n - 1 or st.frames[i + 1].cb is not None)
            row = []
            for r in sorted(fr.regs):
                if r not in live:
                    del fr.regs[r]
                    continue
                v = fr.regs[r]
                ty = self.regty.get((fr.fn.name, r))
                lift = ty is not None and ty.kind == "int" and ty.bits >= 64
                if type(v) is int and not lift and ty is not None and ty.kind == "int" and ty.bits >= 16:
                    s = self.seen.setdefault((fr.fn.name, r), set())
                    if len(s) < 20:
                        s.add(v)
                    lift = len(s) >= 20
                k, fr.regs[r] = conv(v, lift)
                row.append((r, k))
            out.append((fr.fn.name, fr.block.name, fr.idx, fr.cb, tuple(row)))
        out.append(st.w.canon(conv))
        fo = st.forced
        if isinstance(fo, tuple) and len(fo) == 2 and fo[0] == "val":
            k, v = conv(fo[1], False)
            st.forced = ("val", v)
            fo = ("val", k)
        out.append(fo)
        q = 0
        while q < len(queue):
            o = queue[q]
            q += 1
            d = st.mem.get(o)
            if d is None:
                out.append((ren[o], None))
                continue
            if isinstance(o, str) and d.get("global") and self.mod.globals[d["global"]].const:
                continue
            row = []
            d.pop("seen_i", None)
            d.pop("seen_t", None)
            for kk in sorted(d, key=str):
                v = d[kk]
                if isinstance(kk, tuple):
                    if kk[1] in st.mem and not st.mem[kk[1]].get("freed"):
                        row.append(((kk[0], ref(kk[1])), v))
                    else:
                        del d[kk]
                    continue
                if kk in ("kind", "tag", "global", "bytes", "site"):
                    row.append((kk, v if kk in ("kind", "tag") else None))
                    continue
                lift = kk in ("cap", "init", "elem", "len", "tail_i", "last") or (d.get("tag", d["kind"]), kk) in self.cell64
                k, d[kk] = conv(v, lift)
                row.append((kk, k))
            out.append((ren[o], tuple(row)))
        # numbers
        f = st.facts
        m = len(binds)
        src = [(0, 0)] + [(0, b) if isinstance(b, int) else (b[1], b[2]) for b in binds]
        z = Rel({}, [])
        for i in range(m + 1):
            x, cx = src[i]
            for j in range(m + 1):
                if i == j:
                    continue
                y, cy = src[j]
                g = f.get(x, y)
                if g is not None:
                    z.d[(i, j)] = g + cx - cy
        base = 1 << 40
        used = sorted({x for x, _ in src if x})
        e = Rel({}, [{(None if k is None else k + base): a for k, a in r.items()} for r in f.e])
        for i in range(1, m + 1):
            x, cx = src[i]
            row = {i: Fraction(1), None: Fraction(-cx)}
            if x:
                row[x + base] = Fraction(-1)
            e.e.append(row)
        e.canon()
        for v in sorted(v for v in e.vars() if v > base):
            e.elim(v)
        e.canon()
        z.e = e.e
        st.facts = z
        st.w.nv = m
        return tuple(out), z

    def gc(self, st):
        seen = set()
        stack = []

        def visit(v):
            if isinstance(v, tuple):
                if v and v[0] in ("p", "b", "o"):
                    if v[1] not in seen:
                        seen.add(v[1])
                        stack.append(v[1])
                else:
                    for x in v:
                        if isinstance(x, tuple):
                            visit(x)
        n = len(st.frames)
        for i, fr in enumerate(st.frames):
            live = self.frame_live(fr, i == n - 1 or st.frames[i + 1].cb is not None)
            fr.regs = {k: v for k, v in fr.regs.items() if k in live}
            for v in fr.regs.values():
                visit(v)
        for v in st.w.roots():
            visit(v)
        if isinstance(st.forced, tuple):
            visit(st.forced)
        for o in st.mem:
            if isinstance(o, str):
                seen.add(o)
                stack.append(o)
        while stack:
            o = stack.pop()
            d = st.mem.get(o)
            if d:
                for v in list(d.values()):
                    visit(v)
        for o in list(st.mem):
            if o not in seen:
                self.world.dropped(self, st, o)
                del st.mem[o]

    def explore(self, init, max_violations=12):
        work = deque()
        table = self.table

        def push(s, label, parent):
            s.trace = (parent, label)
            try:
                self.gc(s)
            except Violation as v:
                self.report(v, s)
                return
            key, z = self.canon(s)
            ent = table.get(key)
            if ent is None:
                table[key] = [z, 1, 0]
            else:
                if z.leq(ent[0]):
                    return
                self.merges += 1
                ent[1] += 1
                if ent[1] <= 3:
                    w = ent[0].join(z)
                else:
                    w = ent[0].widen(z)
                ent[0] = w
                ent[2] += 1
                run = w.copy()
                if not run.close():
                    raise Unsupported("widening")
                s.facts = run
            work.append((key, table[key][2], s))
            self.states = len(table)
            if self.states > self.MAX_STATES:
                raise Unsupported("more than %d abstract states" % self.MAX_STATES)

        push(init, "start", None)
        while work:
            if self.DEADLINE is not None and time.time() > self.DEADLINE:
                raise Unsupported("the analysis ran out of time at %d abstract states" % self.states)
            key, ver, st = work.pop()
            if table[key][2] != ver:
                continue
            try:
                self.run(st)
            except Fork as f:
                if len(st.w.path) > 12:
                    raise Unsupported("an instruction that does not end", st.frames[-1].block.instrs[st.frames[-1].idx] if st.frames else None)
                for n, (label, fn) in enumerate(f.alts):
                    s = st.copy()
                    s.w.path += (n,)
                    try:
                        if fn(s) is False:
                            continue
                    except Violation as v:
                        self.report(v, s)
                        continue
                    push(s, label, st.trace)
            except (Terminal, Prune):
                self.terminals += 1
            except Violation as v:
                self.report(v, st)
                if len({(x.rule, x.msg) for x in self.violations}) >= max_violations or len(self.violations) >= 3000:
                    return

    def report(self, v, st):
        if getattr(v, "trace", None) is None:
            v.trace = trace_list(st.trace)
        v.stack = [(f.fn.srcname, f.block.instrs[min(f.idx, len(f.block.instrs) - 1)].line) for f in st.frames]
        if not v.stack and st.w.where:
            v.stack = [st.w.where]
        v.world = st.w
        self.violations.append(v)
