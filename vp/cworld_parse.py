# -*- coding: utf-8 -*-
"""World model for the parser engine: the interpreter API as abstract
operations, the input as a lazily revealed sequence of character classes, and
the reference transducer the engine's events are compared with, step by step."""
from .cinterp import (Interp, Prune, HUGE, State, Unsupported, Violation, Fork, UNDEF, is_lin, parts, ladd, lin)
from . import units as U

T = 3                 # stored lengths up to T are exact
INF = 1 << 50         # "no limit"
CR, LF = 13, 10
MAXLAG = 8


class Mismatch(Violation):
    """Disagreement between the code and the reference (kind, message)."""

    def __init__(self, kind, msg):
        Violation.__init__(self, kind, msg)
        self.kind = kind


def nm(c):
    if isinstance(c, tuple):
        return {"D": "delimiter", "Q": "quote", "E": "escape", "X": "other", "~Q": "non-quote"}.get(c[1], str(c[1]))
    return {13: "CR", 10: "LF", 0: "NUL", "EOL": "end of line item", "EOF": "end of input"}.get(c, repr(c))


class Content:
    """Summary of a character sequence: length, first two and last characters
    (only whether each is the quote character matters)."""
    __slots__ = ("n", "head", "last")

    def __init__(self, n=0, head=(), last=None):
        self.n, self.head, self.last = n, head, last

    def key(self):
        return (self.n, self.head, self.last)

    def add(self, c):
        h = self.head if len(self.head) >= 2 else self.head + (c,)
        n = self.n + 1 if isinstance(self.n, int) else ladd(self.n, 1)
        return Content(n, h, c)


EMPTY = Content()


def simp(c, hasq):
    """class of a stored character as far as later decisions can see it"""
    if isinstance(c, tuple) and c[1] == "Q":
        return ("chr", "Q")
    return ("chr", "~Q")


class Spec:
    """Reference transducer.  step(c) consumes a character class, 'EOL' or
    'EOF' and appends events to out."""

    def __init__(self, cfg):
        self.cfg = cfg

    def step(self, s, c):
        """s = (state, content) -> (state', content', events)"""
        cfg = self.cfg
        st, ct = s
        ev = []
        box = [ct]
        strict = cfg["strict"]

        class Dead(Exception):
            pass

        def add(ch):
            if isinstance(box[0].n, int) and box[0].n >= cfg["limit"]:
                ev.append(("ERR", "limit"))
                raise Dead
            box[0] = box[0].add(simp(ch, True))
            ev.append(("ADD", ch))

        def cell(trailing=False):
            k = box[0]
            q = ("chr", "Q")
            a = b = 0
            fl = False
            n = k.n
            if "Q" in cfg["classes"]:
                big = not isinstance(n, int)
                if trailing and st == "QF":
                    # left unterminated: loses its opening quote only
                    if (big or n >= 1) and k.head[0] == q:
                        a = 1
                        fl = True
                elif (big or n >= 2) and k.head[0] == q and k.last == q:
                    a = b = 1
                    fl = True
            ev.append(("CELL", a, b, fl if cfg["rq"] else None, trailing))
            box[0] = EMPTY

        def row():
            ev.append(("ROW",))

        isnl = c in (CR, LF)
        try:
            if c == 0:
                ev.append(("ERR", "nul"))
                raise Dead
            if c == "NONSTR":
                ev.append(("ERR", "nonstr"))
                raise Dead
            if c == "EOF":
                if st == "SR" and box[0].n == 0:
                    ev.append(("STOP",))
                    return ("END", box[0]), ev
                if strict:
                    ev.append(("ERR", "strict-eof"))
                    raise Dead
                cell(True)
                row()
                return ("SR", box[0]), ev
            if st == "QC":
                # a quote was seen inside quotes
                if c == ("chr", "Q"):
                    add(c)
                    return ("QF", box[0]), ev
                if strict and not (c == "EOL" or isnl or c == ("chr", "D")):
                    ev.append(("ERR", "strict-quote"))
                    raise Dead
                add(("chr", "Q"))
                st = "UF"
            if st == "SR":
                if c == "EOL":
                    row()
                    return ("SR", box[0]), ev
                if isnl:
                    return ("EAT", box[0]), ev
                st = "SF"
            if st == "AN":
                if c == "EOL":
                    return ("AN", box[0]), ev
                st = "UF"
            if st in ("SF", "UF"):
                if c == "EOL":
                    cell()
                    row()
                    return ("SR", box[0]), ev
                if isnl:
                    cell()
                    return ("EAT", box[0]), ev
                if c == ("chr", "Q"):
                    add(c)
                    return ("QF", box[0]), ev
                if c == ("chr", "E"):
                    return ("EU", box[0]), ev
                if c == ("chr", "D"):
                    cell()
                    return ("SF", box[0]), ev
                add(c)
                return ("UF", box[0]), ev
            if st == "EU":
                if c == "EOL":
                    return ("UF", box[0]), ev
                if isnl:
                    add(c)
                    return ("AN", box[0]), ev
                if c not in (("chr", "D"), ("chr", "Q"), ("chr", "E")):
                    add(("chr", "E"))
                add(c)
                return ("UF", box[0]), ev
            if st == "QF":
                if c == "EOL":
                    return ("QF", box[0]), ev
                if c == ("chr", "E"):
                    return ("EQ", box[0]), ev
                if c == ("chr", "Q"):
                    return ("QC", box[0]), ev
                add(c)
                return ("QF", box[0]), ev
            if st == "EQ":
                if c == "EOL":
                    add(LF)
                    return ("QF", box[0]), ev
                if c not in (("chr", "D"), ("chr", "Q"), ("chr", "E")):
                    add(("chr", "E"))
                add(c)
                return ("QF", box[0]), ev
            if st == "EAT":
                if c == "EOL":
                    row()
                    return ("SR", box[0]), ev
                if isnl:
                    return ("EAT", box[0]), ev
                ev.append(("ERR", "newline"))
                raise Dead
        except Dead:
            return ("DEAD", EMPTY), ev
        raise AssertionError(st)


class W:
    """mutable part of the world inside a State"""
    FIELDS = ("line", "chars", "rx", "spec", "sc", "impl", "exp", "content", "closed", "err", "phase",
              "ended", "eof_done", "curlist", "roots_", "item", "imprecise", "eol_done", "laststr", "rowout", "user")

    def __init__(self):
        self.line = None        # object id of the current line
        self.chars = ()         # revealed characters from P on
        self.spec = "SR"
        self.sc = EMPTY         # content summary of the reference
        self.impl = ()          # events of the code not yet matched
        self.exp = ()           # events of the reference not yet matched
        self.content = EMPTY    # content summary of the code's cell buffer
        self.closed = True      # the buffer content was delivered as a cell
        self.err = None
        self.phase = "ctor"
        self.ended = False
        self.eof_done = False
        self.curlist = None
        self.roots_ = ()
        self.item = 0
        self.imprecise = False
        self.eol_done = True
        self.rx = None
        self.laststr = None
        self.rowout = False
        self.user = False

    def copy(self):
        w = W.__new__(W)
        for f in W.FIELDS:
            setattr(w, f, getattr(self, f))
        return w

    def key(self, cv):
        return (self.chars, self.spec, self.sc.key(), self.impl, self.exp,
                self.content.key(), self.closed, self.err, self.phase, self.ended, self.eof_done,
                cv(("o", self.curlist)) if self.curlist else None,
                cv(("o", self.line)) if self.line else None,
                tuple(cv(x) for x in self.roots_), self.imprecise, self.eol_done, self.user)

    def roots(self):
        r = list(self.roots_)
        if self.line:
            r.append(("o", self.line))
        if self.curlist:
            r.append(("o", self.curlist))
        return r


class NeedClass(Exception):
    def __init__(self, const):
        self.const = const


NAMES = ["csvfile", "delimiter", "quotechar", "escapechar", "field_limit", "strict", "return_quoted"]


class ParseWorld:
    def __init__(self, mod, cfg):
        self.mod = mod
        self.cfg = cfg
        self.unbounded = cfg.get("bound") is None
        self.seen_values = {}
        self.spec = Spec(cfg)
        u = U.infer(mod, {"vp_READ": [(2, "line")], "PyUnicode_FromKindAndData": [(2, "buf")]})
        if u["mixed"] and self.unbounded:
            raise Unsupported("cannot separate line positions from buffer positions")
        self.uregs = u["regs"]
        self.ufields = {}
        for (s, off), un in u["fields"].items():
            self.ufields[off] = un
        self.loaded = U.loaded_offsets(mod)
        self.alphabet = [("chr", c) for c in cfg["classes"]] + [("chr", "X"), CR, LF, 0] + list(cfg.get("extra", ()))
        if cfg.get("no_special"):
            self.alphabet = [a for a in self.alphabet if a not in (0,)]
        self.known = {0, CR, LF} | set(cfg.get("extra", ()))
        self.thr = {"F": {0, 1, 2, T + 1, HUGE}, "P": {0, 1, 2, HUGE}}
        self.events = 0
        self.consumed = 0

    # ----------------------------------------------------------- setup
    def init_state(self, it, ctor, itnext):
        self.itnext = itnext
        st = State()
        st.w = W()
        m = st.new("pyobj", role="module")
        a = st.new("pyobj", role="args")
        k = st.new("pyobj", role="kwargs")
        it.start(st, ctor, [("o", m), ("o", a), ("o", k)])
        return st

    def finished(self, it, st, v, ins):
        w = st.w
        if w.phase == "ctor":
            if not (isinstance(v, tuple) and v[0] == "o" or isinstance(v, tuple) and v[0] == "p"):
                raise Violation("construct", "the constructor does not return a parser", ins)
            w.roots_ = (v,)
            w.phase = "next"
        elif w.phase == "next":
            self.force_line(it, st)
            if v == 0:
                if w.err is None:
                    self.impl(st, ("STOP",))
                elif w.err == "user":
                    return False
                else:
                    self.impl(st, ("ERR", w.err))
                self.drain(st)
                return False
            if w.err is not None:
                raise Mismatch("err-pending", "a record is returned while an exception is pending")
            if not (isinstance(v, tuple) and v[0] == "o" and st.mem[v[1]]["kind"] == "list"):
                raise Mismatch("row", "the iterator returns something that is not a record list")
            d = st.mem[v[1]]
            if w.curlist is not None and w.curlist != v[1]:
                raise Mismatch("row", "the returned list is not the one that received the cells")
            if w.curlist is None and not d["empty"]:
                raise Mismatch("row", "the returned record contains cells of an earlier record")
            d["returned"] = 1
            w.curlist = None
            self.impl(st, ("ROW",))
            self.drain(st)
            w.rowout = True
        it.start(st, self.itnext, [w.roots_[0]])
        return True

    def drain(self, st):
        w = st.w
        if w.impl or w.exp:
            self.disagree(st, w.impl[0] if w.impl else None, w.exp[0] if w.exp else None)

    # ----------------------------------------------------------- events
    def impl(self, st, ev):
        self.events += 1
        w = st.w
        if ev[0] == "ERR":
            # contents of an unfinished record are irrelevant once an error is raised
            exp = list(w.exp)
            while exp and exp[0][0] in ("ADD", "CELL"):
                exp.pop(0)
            if exp and exp[0][0] == "ERR":
                if ev[1] != "Error":
                    raise Mismatch("err-class", "the error raised is %s, not the module's Error" % ev[1])
                w.exp = ()
                w.impl = ()
                return
            self.disagree(st, ev, w.exp[0] if w.exp else None)
        w.impl = w.impl + (ev,)
        self.match(st)

    def expect(self, st, evs):
        w = st.w
        w.exp = w.exp + tuple(evs)
        self.match(st)

    def match(self, st):
        w = st.w
        while w.impl and w.exp:
            a, b = w.impl[0], w.exp[0]
            if b[0] == "ERR" and a[0] in ("ADD", "CELL"):
                # parts of a record that ends in an error are never seen
                w.impl = w.impl[1:]
                continue
            if a[0] == "CELL":
                if b[0] == "CELL" and a[1:4] == b[1:4]:
                    pass
                else:
                    self.disagree(st, a, b)
            elif a != b:
                self.disagree(st, a, b)
            w.impl, w.exp = w.impl[1:], w.exp[1:]
        if len(w.impl) > MAXLAG or len(w.exp) > MAXLAG:
            self.disagree(st, w.impl[0] if w.impl else None, w.exp[0] if w.exp else None)

    def describe(self, e):
        if e is None:
            return "nothing"
        if e[0] == "ADD":
            return "content character %s" % nm(e[1])
        if e[0] == "CELL":
            return "end of cell (stripping %s from the front, %s from the back%s)" % (
                e[1], e[2], "" if e[3] is None else ", flagged quoted" if e[3] else ", flagged unquoted")
        if e[0] == "ROW":
            return "end of record"
        if e[0] == "STOP":
            return "end of iteration"
        if e[0] == "ERR":
            return "error (%s)" % e[1]
        return str(e)

    def disagree(self, st, got, want):
        w = st.w
        cfg = self.cfg
        kind = "content"
        g = got[0] if got else None
        x = want[0] if want else None
        if x == "ERR":
            k = want[1]
            kind = {"limit": "err-limit", "nul": "err-nul", "nonstr": "err-nonstr", "newline": "err-newline"}.get(k, "err-strict")
        elif g == "ERR":
            errs = [e for e in w.exp if e[0] == "ERR"]
            kind = "err-extra"
        elif w.eof_done and g == "CELL" and x == "CELL":
            kind = "strip"
        elif w.eof_done:
            kind = "eof"
        elif g == "CELL" and x == "CELL":
            kind = "strip"
        elif g in ("ROW", "STOP") and x is None:
            kind = "row-early"      # if the data ended here, the rest of the record would be lost
        elif "CELL" in (g, x):
            kind = "cell"
        elif "ROW" in (g, x) or "STOP" in (g, x):
            kind = "row"
        raise Mismatch(kind, "the code produces %s where the property requires %s (reader state %s)" % (
            self.describe(got), self.describe(want), w.spec))

    def feed(self, st, c):
        """the reference consumes one symbol"""
        w = st.w
        self.consumed += 1
        if w.spec in ("DEAD", "END"):
            return
        (w.spec, w.sc), ev = self.spec.step((w.spec, w.sc), c)
        if ev:
            self.expect(st, ev)

    # ----------------------------------------------------------- input line
    def reveal_fork(self, st):
        """alternatives for the next unrevealed position"""
        n = len(st.w.chars)
        lo, hi = st.facts["R"]
        alts = []
        bound = self.cfg.get("bound")
        full = bound is not None and n + parts_P(st) >= bound

        def end(s):
            s.facts["R"] = (n, n)
            self.line_end(s)

        def ch(c):
            def f(s):
                s.w.chars = s.w.chars + (c,)
                l, h = s.facts["R"]
                s.facts["R"] = (max(l, n + 1), h)
                self.feed(s, c)
                if h is not None and h == n + 1:
                    self.line_end(s)
            return f
        if lo <= n and (hi is None or hi >= n):
            alts.append(("end of item", end))
        if (hi is None or hi > n) and not full:
            for c in self.alphabet:
                alts.append((nm(c), ch(c)))
        return alts

    def line_end(self, st):
        w = st.w
        if not w.eol_done:
            w.eol_done = True
            self.feed(st, "EOL")

    def split_R(self, it, st):
        n = len(st.w.chars)
        lo, hi = st.facts["R"]
        if st.w.line is None:
            raise Unsupported("line length used without a line")
        # decide one more position
        def end(s):
            s.facts["R"] = (lo, lo)
            if len(s.w.chars) == lo:
                self.line_end(s)

        def more(s):
            s.facts["R"] = (lo + 1, hi)
        if lo < n:
            raise Unsupported("line bookkeeping")
        if lo > n + 3:
            raise Unsupported("line length compared far ahead")
        bound = self.cfg.get("bound")
        if bound is not None and lo + parts_P(st) >= bound:
            raise Fork([("no more characters", end)])
        raise Fork([("no more characters", end), ("more characters", more)])

    def force_line(self, it, st):
        """everything of the current line becomes known"""
        w = st.w
        if w.line is None or w.eol_done or w.spec in ("DEAD", "END"):
            return
        raise Fork(self.reveal_fork(st))

    def read_char(self, it, st, obj, idx, ins):
        w = st.w
        d = st.mem[obj]
        if d["kind"] == "line":
            if obj != w.line:
                raise Unsupported("read from an earlier line", ins)
            rel = self.rel_index(st, idx, ins)
            if rel < 0:
                raise Unsupported("read behind the retained part of the line", ins)
            if rel < len(w.chars):
                return w.chars[rel]
            lo, hi = st.facts["R"]
            if lo == hi == len(w.chars):
                if rel == lo:
                    return 0
                raise Mismatch("content", "a character past the end of the line is read")
            raise Fork(self.reveal_fork(st))
        if d["kind"] == "const":
            if idx == 0 and d["value"] != "":
                return ("chr", d["value"])
            raise Unsupported("indexing an option string", ins)
        if d["kind"] == "str":
            return self.str_char(it, st, d, idx, ins)
        raise Unsupported("character read from %s" % d["kind"], ins)

    def rel_index(self, st, idx, ins):
        p, r, f, c = parts(idx)
        lo, hi = st.facts["P"]
        if (p, r, f) == (1, 0, 0):
            return c
        if (p, r, f) == (0, 0, 0) and lo == hi:
            return c - lo
        # exact R too
        rl, rh = st.facts["R"]
        if f == 0 and rl == rh:
            if p == 1:
                return r * rl + c
            if p == 0 and lo == hi:
                return r * rl + c - lo
        raise Unsupported("line index %r" % (idx,), ins)

    def str_char(self, it, st, d, idx, ins):
        a, ln = d["a"], d["len"]
        ct = d["content"]
        if not is_lin(idx):
            raise Unsupported("string index", ins)
        # bounds
        if it.compare(st, "slt", idx, 0, ins) or it.compare(st, "sge", idx, ln, ins):
            raise Unsupported("string index out of range", ins)
        pos = ladd(idx, a)
        if isinstance(pos, int) and pos < len(ct[1]):
            return ct[1][pos]
        back = ladd(ct[0], pos, -1)
        if back == 1:
            return ct[2]
        return ("chr", "?")

    # ----------------------------------------------------------- memory hooks
    def buf_load(self, it, st, obj, idx, ty, ins):
        raise Unsupported("reads back from the cell buffer", ins)

    def buf_store(self, it, st, obj, idx, v, ty, ins):
        w = st.w
        d = st.mem.get(obj)
        if d is None or d.get("freed"):
            raise Violation("use-after-free", "store into a released buffer", ins)
        n = 0 if w.closed else w.content.n
        if not is_lin(idx):
            raise Unsupported("store at unknown index", ins)
        if idx == n:
            pass
        elif idx == 0:
            raise Mismatch("content", "content of an unfinished cell is overwritten (line %s)" % ins.line)
        else:
            diff = ladd(idx, n, -1)
            if not isinstance(diff, int):
                raise Unsupported("store index %r with %r stored" % (idx, n), ins)
            raise Mismatch("content", "character stored at distance %d from the end of the cell content (line %s)" % (diff, ins.line))
        if v == UNDEF:
            raise Mismatch("content", "an uninitialised value is stored as cell content")
        if w.closed:
            w.content = EMPTY
            w.closed = False
        w.content = w.content.add(simp(v, True))
        if self.cfg.get("bound") is not None and isinstance(w.content.n, int) and w.content.n > 2 * self.cfg["bound"]:
            raise Prune()
        self.impl(st, ("ADD", v))

    def on_store(self, it, st, ptr, v, ins):
        pass

    def dead_field(self, kind, off):
        """is this field of the parser object never read by any C function?"""
        return kind == "self" and isinstance(off, int) and off not in self.loaded

    def load_missing(self, it, st, ptr, ty, ins):
        d = st.mem[ptr[1]]
        k = d["kind"]
        if k == "modstate":
            return ("exc", "Error")
        if k in ("opaque",):
            return ("p", ptr[1], 0) if ty.kind == "ptr" else ("top", "x")
        if k in ("pyobj", "nonstr", "list", "str", "tuple", "const", "line", "exccls"):
            o = st.new("opaque")
            return ("p", o, 0)
        return UNDEF

    def load_global(self, it, st, name, ins):
        if name.startswith("PyExc_"):
            return ("exc", name)
        return UNDEF

    def binop(self, it, st, op, a, b, ins):
        for x in (a, b):
            if isinstance(x, tuple) and x[0] == "top":
                return x
        # powers and doublings of symbolic lengths only concern capacities
        if op in ("mul", "shl", "lshr", "udiv", "sdiv", "ashr", "urem"):
            return ("top", "cap")
        raise Unsupported("operation %s on %r, %r" % (op, a, b), ins)

    def compare(self, it, st, pred, a, b, ins):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] == "chr":
                if pred in ("eq", "ne"):
                    r = self.chr_eq(x, y, ins)
                    return r if pred == "eq" else not r
                if isinstance(y, int) and y == 0:
                    return Interp.icmp_int(pred, 1 if x is a else 0, 0 if x is a else 1, None)
                raise Unsupported("ordering comparison of characters", ins)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] in ("o", "p", "b", "g", "f", "exc"):
                if pred not in ("eq", "ne"):
                    raise Unsupported("pointer ordering", ins)
                if y == 0:
                    return pred == "ne"
                if isinstance(y, tuple) and y[0] in ("o", "p", "b", "g", "f", "exc"):
                    same = self.ident(x) == self.ident(y)
                    return same if pred == "eq" else not same
        ta = isinstance(a, tuple) and a[0] == "top"
        tb = isinstance(b, tuple) and b[0] == "top"
        if ta or tb:
            if not ((ta and a[1] == "cap") or (tb and b[1] == "cap")):
                st.w.imprecise = True
            o = b if ta else a
            # capacities are positive and below the address space
            if isinstance(o, int) and ta and a[1] == "cap":
                if o >= 1 << 58:
                    return {"slt": True, "sle": True, "ult": True, "ule": True, "eq": False, "ne": True}.get(pred, False)
                if o <= 0:
                    return {"sgt": True, "ugt": True, "sge": True, "uge": True, "ne": True}.get(pred, False)
            return None
        raise Unsupported("comparison of %r and %r" % (a, b), ins)

    @staticmethod
    def ident(x):
        if x[0] == "p" and x[2] == 0:
            return ("o", x[1])
        if x[0] == "b" and x[2] == 0:
            return ("o", x[1])
        if x[0] in ("g", "f"):
            return ("g", x[1])
        return x

    def chr_eq(self, x, y, ins):
        if isinstance(y, tuple) and y[0] == "chr":
            if "?" in (x[1], y[1]):
                raise Unsupported("comparison with a forgotten character", ins)
            if "~Q" in (x[1], y[1]):
                o = y[1] if x[1] == "~Q" else x[1]
                if o == "Q":
                    return False
                raise Unsupported("content character compared with something other than the quote", ins)
            if x[1] == y[1] == "X":
                raise Unsupported("two ordinary characters compared", ins)
            return x[1] == y[1]
        if isinstance(y, int):
            y &= 0xFFFFFFFF
            if x[1] == "?":
                raise Unsupported("comparison with a forgotten character", ins)
            if x[1] == "~Q" and y != 0:
                raise Unsupported("content character compared with a constant", ins)
            if y in self.known or y > 0x10FFFF:
                return False
            raise NeedClass(y)
        raise Unsupported("character compared with %r" % (y,), ins)

    # ----------------------------------------------------------- canonical form
    def canonicalise(self, it, st):
        if not self.unbounded:
            return
        w = st.w
        fm = st.facts
        self.relax(it, st)
        self.counters(it, st)
        # line positions
        if w.line is None:
            if fm["P"] != (0, 0) or fm["R"] != (0, None):
                self.map_all(it, st, lambda v, u: ("top", "line") if isinstance(v, tuple) and v[0] == "l" and (v[1] or v[2]) else v)
                fm["P"], fm["R"] = (0, 0), (0, None)
        else:
            lo, hi = fm["P"]
            if lo == hi:
                self.anchor(it, st, lo)
            m = []

            def see(v, u):
                if isinstance(v, tuple) and v[0] == "l" and v[1] == 1 and v[2] == 0 and v[3] == 0:
                    m.append(v[4])
                return v
            self.map_all(it, st, see)
            if not m and not self.reads_left(it, st):
                m = [len(w.chars)]
            if m:
                k = min(min(m), len(w.chars))
                if k > 0:
                    def sh(v, u):
                        if isinstance(v, tuple) and v[0] == "l":
                            _, p, r, f, c = v
                            return lin(p, r, f, c + (r - p) * k)
                        return v
                    self.map_all(it, st, sh)
                    w.chars = w.chars[k:]
                    rl, rh = fm["R"]
                    fm["R"] = (max(0, rl - k), None if rh is None else rh - k)
                    lo, hi = fm["P"]
                    lo2 = lo + k
                    hi2 = None if hi is None else hi + k
                    fm["P"] = (lo2, hi2)
                    if lo2 == hi2:
                        self.anchor(it, st, lo2)
                    if lo2 >= 2:
                        fm["P"] = self.widen("P", (lo2, HUGE))
        # stored length
        n = w.content.n
        self.drop_F(it, st)
        if isinstance(n, int) and n > T and fm["F"] == (0, 0):
            fm["F"] = (n, n)

            def toF(v, u):
                if isinstance(v, int) and u == "buf" and 1 < v < 64 and abs(v - n) < abs(v):
                    return lin(0, 0, 1, v - n)
                return v
            self.map_all(it, st, toF)
            w.content = Content(lin(0, 0, 1, 0), w.content.head, w.content.last)
            if isinstance(w.sc.n, int) and abs(w.sc.n - n) < 4 and w.sc.n > 1:
                w.sc = Content(lin(0, 0, 1, w.sc.n - n), w.sc.head, w.sc.last)
        n = w.content.n
        if isinstance(n, tuple):
            k = n[4]
            if k != 0:
                def shf(v, u):
                    if isinstance(v, tuple) and v[0] == "l" and v[3]:
                        _, p, r, f, c = v
                        return lin(p, r, f, c - f * k)
                    return v
                self.map_all(it, st, shf)
                w.content = Content(shf(w.content.n, None), w.content.head, w.content.last)
                w.sc = Content(shf(w.sc.n, None), w.sc.head, w.sc.last)
                lo, hi = fm["F"]
                fm["F"] = (lo + k, None if hi is None else hi + k)
            fm["F"] = self.widen("F", fm["F"])
        if w.closed:
            w.content = EMPTY
        self.drop_F(it, st)

    def drop_F(self, it, st):
        """forget the length base when nothing refers to it any more"""
        if st.facts["F"] == (0, 0):
            return
        w = st.w
        if isinstance(w.content.n, tuple) or isinstance(w.sc.n, tuple):
            return
        used = []

        def see(v, u):
            if isinstance(v, tuple) and v[0] == "l" and v[3]:
                used.append(v)
            return v
        self.map_all(it, st, see)
        if not used:
            st.facts["F"] = (0, 0)

    def reads_left(self, it, st):
        """does any live value still refer to the current line object?"""
        n = len(st.frames)
        for i, fr in enumerate(st.frames):
            for k in it.frame_live(fr, i == n - 1):
                if fr.regs.get(k) == ("o", st.w.line):
                    return True
        return False

    def widen(self, base, iv):
        ths = sorted(self.thr[base])
        lo = max(t for t in ths if t <= iv[0])
        hi = HUGE if iv[1] is None or iv[1] >= HUGE else min(t for t in ths if t >= iv[1])
        return (lo, hi)

    def threshold(self, base, t):
        for x in (t, t + 1):
            if 0 <= x < HUGE:
                self.thr[base].add(x)

    def imprecise(self, st):
        st.w.imprecise = True

    @staticmethod
    def uses_F(d):
        if d.get("kind") == "str":
            return any(isinstance(v, tuple) and v and v[0] == "l" for v in (d["a"], d["len"], d["content"][0]))
        return False

    def relax(self, it, st):
        """large concrete capacities become unknown capacities"""
        def f(v, u):
            if isinstance(v, int) and u == "buf" and 64 <= v < (1 << 40):
                return ("top", "cap")
            return v
        self.map_all(it, st, f)

    def anchor(self, it, st, p0):
        def f(v, u):
            if isinstance(v, int) and u == "line" and v >= 0:
                if (p0 == 0 and v >= 0 and v > 0) or abs(v - p0) < abs(v):
                    return lin(1, 0, 0, v - p0)
                return v
            if isinstance(v, tuple) and v[0] == "l" and v[3] == 0:
                _, p, r, _, c = v
                if r == 1 and p == 1 and abs(c + p0) < abs(c):
                    return lin(0, 1, 0, c + p0)
                if r == 1 and p == 0 and abs(c - p0) < abs(c):
                    return lin(1, 1, 0, c - p0)
                if r == 0 and p == 1 and abs(c + p0) < abs(c):
                    return c + p0
            return v
        self.map_all(it, st, f)

    LIMIT_VALUES = 24

    def counters(self, it, st):
        """a plain integer that keeps taking new values is a counter: any value"""
        seen = self.seen_values
        n = len(st.frames)
        for i, fr in enumerate(st.frames):
            for k, v in fr.regs.items():
                if type(v) is int and v and (fr.fn.name, k) not in self.uregs:
                    s = seen.setdefault((fr.fn.name, k), set())
                    if len(s) <= self.LIMIT_VALUES:
                        s.add(v)
                    if len(s) > self.LIMIT_VALUES:
                        fr.regs[k] = ("top", "cnt")
        for o, d in st.mem.items():
            if isinstance(d, dict) and d["kind"] == "self":
                for k, v in d.items():
                    if type(k) is int and type(v) is int and v and k not in self.ufields:
                        s = seen.setdefault(k, set())
                        if len(s) <= self.LIMIT_VALUES:
                            s.add(v)
                        if len(s) > self.LIMIT_VALUES:
                            d[k] = ("top", "cnt")

    def map_all(self, it, st, fn):
        n = len(st.frames)
        for i, fr in enumerate(st.frames):
            live = it.frame_live(fr, i == n - 1)
            for k in list(fr.regs):
                if k not in live:
                    del fr.regs[k]
                    continue
                v = fr.regs[k]
                if isinstance(v, int) or (isinstance(v, tuple) and v[0] == "l"):
                    fr.regs[k] = fn(v, self.uregs.get((fr.fn.name, k)))
                elif isinstance(v, tuple) and v[0] == "b":
                    fr.regs[k] = ("b", v[1], fn(v[2], "bufp"))
        for o, d in st.mem.items():
            if not isinstance(d, dict) or isinstance(o, str):
                continue
            if d["kind"] == "str":
                for k in ("a", "len"):
                    d[k] = fn(d[k], "bufp")
                c = d["content"]
                d["content"] = (fn(c[0], "bufp"), c[1], c[2])
                continue
            for k in d:
                if isinstance(k, int):
                    v = d[k]
                    if isinstance(v, int) or (isinstance(v, tuple) and v[0] == "l"):
                        d[k] = fn(v, self.ufields.get(k) if not d.get("alloca") else None)
                    elif isinstance(v, tuple) and v[0] == "b":
                        d[k] = ("b", v[1], fn(v[2], "bufp"))

    # ----------------------------------------------------------- API
    def cstr(self, it, st, p):
        """bytes behind a pointer to a constant string"""
        if isinstance(p, tuple) and p[0] == "p" and p[1] in st.mem and st.mem[p[1]].get("bytes") is not None:
            return st.mem[p[1]]["bytes"][p[2]:].split(b"\0")[0].decode("latin-1")
        return None

    def option(self, st, name):
        cfg = self.cfg
        if name == "csvfile":
            return ("o", st.new("pyobj", role="input"))
        if name in ("delimiter", "quotechar", "escapechar"):
            c = {"delimiter": "D", "quotechar": "Q", "escapechar": "E"}[name]
            if c in cfg["classes"]:
                return ("o", st.new("const", value=c))
            return ("g", "_Py_NoneStruct") if cfg.get("none") else ("o", st.new("const", value=""))
        if name == "field_limit":
            return ("o", st.new("long", value=cfg["limit"]))
        if name == "strict":
            return ("g", "_Py_TrueStruct") if cfg["strict"] else ("g", "_Py_FalseStruct")
        if name == "return_quoted":
            return ("g", "_Py_TrueStruct") if cfg["rq"] else ("g", "_Py_FalseStruct")
        return None

    def obj(self, st, v, ins):
        if isinstance(v, tuple) and v[0] == "o":
            if v[1] not in st.mem:
                raise Unsupported("dangling object", ins)
            return st.mem[v[1]]
        if isinstance(v, tuple) and v[0] == "p" and v[2] == 0:
            return st.mem[v[1]]
        if isinstance(v, tuple) and v[0] == "g":
            return {"kind": "global", "name": v[1]}
        if v == 0:
            raise Violation("null-pointer", "an API function is called with a null pointer", ins)
        raise Unsupported("object %r" % (v,), ins)

    def api(self, it, st, name, args, ins):
        w = st.w
        f = getattr(self, "a_" + name.lstrip("_"), None)
        if f is None:
            raise Unsupported("unknown API function %s" % name, ins)
        return f(it, st, args, ins)

    # no-ops
    def a_vp_INCREF(self, it, st, a, ins):
        return None
    a_vp_DECREF = a_vp_XINCREF = a_vp_XDECREF = a_Py_IncRef = a_Py_DecRef = a_vp_INCREF
    a_PyObject_GC_Track = a_PyObject_GC_UnTrack = a_vp_INCREF

    def a_vp_NewRef(self, it, st, a, ins):
        return a[0]
    a_vp_XNewRef = a_vp_NewRef

    def a_vp_CLEAR(self, it, st, a, ins):
        it.store(st, a[0], 0, None, ins)

    def a_vp_SETREF(self, it, st, a, ins):
        it.store(st, a[0], a[1], None, ins)
    a_vp_XSETREF = a_vp_SETREF

    def a_PyObject_GC_New(self, it, st, a, ins):
        return ("p", st.new("self"), 0)
    a_PyType_GenericAlloc = a_PyObject_GC_New

    def a_PyArg_ParseTupleAndKeywords(self, it, st, a, ins):
        fmt = self.cstr(it, st, a[2])
        kw = a[3]
        names = []
        off = kw[2]
        d = st.mem[kw[1]]
        while True:
            v = d.get(off, 0)
            if v == 0:
                break
            names.append(self.cstr(it, st, v))
            off += 8
        codes = [c for c in fmt.split(":")[0].split(";")[0] if c not in "|$"]
        if len(codes) != len(names) or len(a) - 4 != len(codes):
            raise Unsupported("argument format %r" % fmt, ins)
        for c, nme, dst in zip(codes, names, a[4:]):
            v = self.option(st, nme)
            if v is None:
                continue
            if c == "O":
                pass
            elif c == "p":
                v = 1 if v == ("g", "_Py_TrueStruct") else 0
            elif c in "il" "n":
                v = self.cfg["limit"] if nme == "field_limit" else (1 if v == ("g", "_Py_TrueStruct") else 0)
            elif c == "U":
                if v[0] != "o":
                    raise Unsupported("format U for None", ins)
            else:
                raise Unsupported("argument format %r" % fmt, ins)
            it.store(st, dst, v, None, ins)
        return 1

    def a_PyObject_IsTrue(self, it, st, a, ins):
        v = a[0]
        if v == ("g", "_Py_TrueStruct"):
            return 1
        if v in (("g", "_Py_FalseStruct"), ("g", "_Py_NoneStruct")):
            return 0
        raise Unsupported("truth of an object", ins)

    def a_PyLong_AsLong(self, it, st, a, ins):
        d = self.obj(st, a[0], ins)
        if d["kind"] == "long":
            return d["value"]
        if d["kind"] == "global" and d["name"] in ("_Py_TrueStruct", "_Py_FalseStruct"):
            return int(d["name"] == "_Py_TrueStruct")
        raise Unsupported("integer value of an object", ins)
    a_PyLong_AsSsize_t = a_PyLong_AsLong
    a_PyLong_AsLongLong = a_PyLong_AsLong
    a_PyNumber_AsSsize_t = a_PyLong_AsLong

    def a_vp_IsLong(self, it, st, a, ins):
        d = self.obj(st, a[0], ins)
        return int(d["kind"] == "long")

    def a_vp_IsBool(self, it, st, a, ins):
        return int(a[0] in (("g", "_Py_TrueStruct"), ("g", "_Py_FalseStruct")))

    def a_vp_IsUnicode(self, it, st, a, ins):
        d = self.obj(st, a[0], ins)
        return int(d["kind"] in ("const", "line", "str"))

    def a_vp_READY(self, it, st, a, ins):
        return 0

    def a_vp_KIND(self, it, st, a, ins):
        return ("top", "kind")

    def a_vp_DATA(self, it, st, a, ins):
        return a[0]

    def a_vp_MAXCHAR(self, it, st, a, ins):
        return ("top", "maxchar")

    def a_vp_TYPE(self, it, st, a, ins):
        return ("p", st.new("opaque"), 0)

    def a_vp_READ(self, it, st, a, ins):
        v = a[1]
        if isinstance(v, tuple) and v[0] == "o":
            return self.read_char(it, st, v[1], a[2], ins)
        raise Unsupported("character read through %r" % (v,), ins)

    def a_vp_READ_CHAR(self, it, st, a, ins):
        self.obj(st, a[0], ins)
        return self.read_char(it, st, a[0][1], a[1], ins)
    a_PyUnicode_ReadChar = a_vp_READ_CHAR

    def a_vp_GET_LENGTH(self, it, st, a, ins):
        d = self.obj(st, a[0], ins)
        if d["kind"] == "line":
            return lin(1, 1, 0, 0) if st.facts["P"] != (0, 0) or True else lin(0, 1, 0, 0)
        if d["kind"] == "const":
            return 1 if d["value"] else 0
        if d["kind"] == "str":
            return d["len"]
        raise Unsupported("length of %s" % d["kind"], ins)
    a_PyUnicode_GetLength = a_vp_GET_LENGTH

    def a_PyErr_Format(self, it, st, a, ins):
        v = a[0]
        if isinstance(v, tuple) and v[0] == "exc":
            st.w.err = v[1]
        else:
            st.w.err = "?"
        return 0
    a_PyErr_SetString = a_PyErr_Format
    a_PyErr_SetObject = a_PyErr_Format
    a_PyErr_SetNone = a_PyErr_Format

    def a_PyErr_NoMemory(self, it, st, a, ins):
        st.w.err = "PyExc_MemoryError"
        return 0

    def a_PyErr_Clear(self, it, st, a, ins):
        st.w.err = None

    def a_PyErr_Occurred(self, it, st, a, ins):
        return ("exc", st.w.err) if st.w.err else 0

    def a_PyErr_ExceptionMatches(self, it, st, a, ins):
        return int(isinstance(a[0], tuple) and a[0] == ("exc", st.w.err))

    def a_PyState_FindModule(self, it, st, a, ins):
        return ("o", st.new("pyobj", role="module"))

    def a_PyModule_GetState(self, it, st, a, ins):
        return ("p", st.new("modstate"), 0)

    def a_PyType_GetModule(self, it, st, a, ins):
        return ("o", st.new("pyobj", role="module"))

    def a_PyObject_GetIter(self, it, st, a, ins):
        d = self.obj(st, a[0], ins)
        if d.get("role") != "input":
            raise Mismatch("construct", "iterates over something other than the given input")
        return ("o", st.new("pyobj", role="iter"))

    def a_PyIter_Next(self, it, st, a, ins):
        w = st.w
        d = self.obj(st, a[0], ins)
        if d.get("role") not in ("iter",):
            raise Unsupported("next of an unknown iterator", ins)
        if isinstance(st.forced, tuple):
            r = st.forced
            st.forced = None
            return r[1]
        self.force_line(it, st)
        if w.err is not None:
            raise Mismatch("err-pending", "the input is advanced while an exception is pending")
        if w.ended:
            self.take_end(st)
            return 0
        alts = []

        def line(s):
            ww = s.w
            o = s.new("line")
            ww.line = o
            ww.chars = ()
            ww.eol_done = False
            s.facts["P"] = (0, 0)
            s.facts["R"] = (0, None)
            s.forced = ("v", ("o", o))
            ww.rowout = False

        def end(s):
            s.w.line = None
            s.w.ended = True
            self.take_end(s)
            s.forced = ("v", 0)

        def user(s):
            s.w.line = None
            s.w.err = "user"
            s.w.user = True
            s.forced = ("v", 0)

        def nonstr(s):
            s.w.line = None
            self.feed(s, "NONSTR")
            s.forced = ("v", ("o", s.new("nonstr")))
        alts.append(("next item", line))
        alts.append(("end of input", end))
        if not self.cfg.get("no_special"):
            alts.append(("the iterator raises", user))
            alts.append(("item that is not a string", nonstr))
        raise Fork(alts)

    def take_end(self, s):
        s.w.eof_done = True
        self.feed(s, "EOF")

    def a_PyUnicode_FromKindAndData(self, it, st, a, ins):
        w = st.w
        p, n = a[1], a[2]
        have = 0 if w.closed else w.content.n
        if n != have:
            d = ladd(n, have, -1) if is_lin(n) else None
            if d is None or not isinstance(d, int):
                raise Unsupported("cell of length %r with %r stored" % (n, have), ins)
            raise Mismatch("content", "a cell is made of %s characters more than were stored" % d if d > 0
                           else "a cell is made with %d stored characters missing" % -d)
        if isinstance(p, tuple) and p[0] == "b" and p[2] != 0:
            raise Mismatch("content", "a cell is made from the middle of the buffer")
        if n == 0:
            c = (0, (), None)
        else:
            c = (w.content.n, w.content.head, w.content.last)
        return ("o", st.new("str", a=0, len=n, content=c))

    def a_PyUnicode_New(self, it, st, a, ins):
        if is_lin(a[0]) and it.compare(st, "slt", a[0], 0, ins):
            raise Mismatch("strip", "a string of negative length is made")
        return ("o", st.new("str", a=None, len=a[0], content=(0, (), None)))

    def a_PyUnicode_CopyCharacters(self, it, st, a, ins):
        to, ts, fr, fs, n = a
        d, s = self.obj(st, to, ins), self.obj(st, fr, ins)
        if ts != 0 or d["a"] is not None or d["len"] != n:
            raise Unsupported("partial copy", ins)
        if s.get("a") is None:
            raise Unsupported("copy of an unfilled string", ins)
        end = ladd(fs, n)
        if it.compare(st, "sgt", end, s["len"], ins):
            raise Mismatch("strip", "copies more characters than there are")
        d["a"] = ladd(s["a"], fs)
        d["content"] = s["content"]
        return n

    def a_PyUnicode_Substring(self, it, st, a, ins):
        s = self.obj(st, a[0], ins)
        lo, hi = a[1], a[2]
        if it.compare(st, "sgt", hi, s["len"], ins):
            hi = s["len"]
        if it.compare(st, "sge", lo, hi, ins):
            return ("o", st.new("str", a=0, len=0, content=(0, (), None)))
        return ("o", st.new("str", a=ladd(s["a"], lo), len=ladd(hi, lo, -1), content=s["content"]))

    def a_PyMem_Malloc(self, it, st, a, ins):
        return ("b", st.new("buf"), 0)
    a_malloc = a_PyMem_RawMalloc = a_PyObject_Malloc = a_PyMem_Calloc = a_calloc = a_PyMem_Malloc

    def a_PyMem_Realloc(self, it, st, a, ins):
        p = a[0]
        o = st.new("buf")
        if isinstance(p, tuple) and p[0] == "b":
            d = st.mem[p[1]]
            es = d.get("elemsize")
            if es:
                st.mem[o]["elemsize"] = es
            d["freed"] = 1
            st.w.roots_ = tuple(("b", o, 0) if r == ("b", p[1], 0) else r for r in st.w.roots_)
        return ("b", o, 0)
    a_realloc = a_PyMem_RawRealloc = a_PyObject_Realloc = a_PyMem_Realloc

    def a_PyMem_Free(self, it, st, a, ins):
        p = a[0]
        if isinstance(p, tuple) and p[0] == "b":
            st.mem[p[1]]["freed"] = 1
    a_free = a_PyMem_RawFree = a_PyObject_Free = a_PyMem_Free

    def a_PyList_New(self, it, st, a, ins):
        if a[0] != 0:
            raise Unsupported("list of given size", ins)
        return ("o", st.new("list", empty=1))

    def a_PyTuple_New(self, it, st, a, ins):
        return ("o", st.new("tuple", n=a[0]))

    def a_PyTuple_SetItem(self, it, st, a, ins):
        d = self.obj(st, a[0], ins)
        d["i%s" % a[1]] = a[2]
        return 0

    def a_vp_TupleSet(self, it, st, a, ins):
        self.a_PyTuple_SetItem(it, st, a, ins)

    def a_PyTuple_Pack(self, it, st, a, ins):
        o = st.new("tuple", n=a[0])
        for i, v in enumerate(a[1:]):
            st.mem[o]["i%d" % i] = v
        return ("o", o)

    def a_PyBool_FromLong(self, it, st, a, ins):
        r = it.compare(st, "ne", a[0], 0, ins)
        return ("g", "_Py_TrueStruct") if r else ("g", "_Py_FalseStruct")

    def a_Py_BuildValue(self, it, st, a, ins):
        fmt = self.cstr(it, st, a[0])
        codes = [c for c in fmt if c not in "() ,"]
        o = st.new("tuple", n=len(codes))
        for i, (c, v) in enumerate(zip(codes, a[1:])):
            if c not in "ON":
                raise Unsupported("Py_BuildValue format %r" % fmt, ins)
            st.mem[o]["i%d" % i] = v
        return ("o", o)

    def a_PyList_Append(self, it, st, a, ins):
        w = st.w
        l = self.obj(st, a[0], ins)
        x = self.obj(st, a[1], ins)
        if l["kind"] != "list":
            raise Unsupported("append to %s" % l["kind"], ins)
        lid = a[0][1]
        if l.get("returned"):
            raise Mismatch("row", "a cell is added to a record that was already delivered")
        if w.curlist is not None and w.curlist != lid:
            raise Mismatch("row", "cells of one record go to two lists")
        if w.curlist is None and not l["empty"]:
            raise Mismatch("row", "a cell is added to the list of an earlier record")
        flag = None
        if x["kind"] == "tuple":
            if x["n"] != 2:
                raise Mismatch("strip", "a cell is not delivered as a (text, flag) pair")
            s = self.obj(st, x.get("i0", 0), ins)
            fl = x.get("i1", 0)
            if fl == ("g", "_Py_TrueStruct"):
                flag = True
            elif fl == ("g", "_Py_FalseStruct"):
                flag = False
            else:
                raise Mismatch("strip", "the flag of a cell is not a boolean")
        else:
            s = x
        if s["kind"] != "str":
            raise Mismatch("strip", "a cell is delivered that is not a text")
        if (flag is None) == bool(self.cfg["rq"]):
            raise Mismatch("strip", "cells are %s although quoting information is %srequested" % (
                "plain texts" if flag is None else "pairs", "" if self.cfg["rq"] else "not "))
        if s["a"] is None:
            raise Mismatch("strip", "a cell text is never filled in")
        total = s["content"][0]
        front = s["a"]
        back = ladd(ladd(total, s["a"], -1), s["len"], -1)
        if s["len"] == 0 and total == 0:
            front = back = 0
        cur = (w.content.n, w.content.head, w.content.last) if not w.closed else (0, (), None)
        if s["content"] != cur:
            raise Mismatch("content", "a cell is delivered that is not the current cell content")
        l["empty"] = 0
        w.curlist = lid
        w.closed = True
        self.impl(st, ("CELL", front, back, flag))
        return 0

    def a_PyList_Size(self, it, st, a, ins):
        l = self.obj(st, a[0], ins)
        if l["empty"]:
            return 0
        return ("top", "listlen")
    a_vp_ListSize = a_PyList_Size


def parts_P(st):
    return st.facts["P"][0]


# ------------------------------------------------------------------- driver
def find_entry(mod):
    """constructor function and iteration function of the parser object"""
    ctor = None
    for g in mod.globals.values():
        if g.init is None or g.init.kind != "agg":
            continue
        els = g.init.v
        for e in els:
            if e.kind == "agg" and len(e.v) >= 2 and e.v[0].kind == "global" and e.v[1].kind == "global":
                n = mod.globals.get(e.v[0].v)
                if n is not None and n.init is not None and n.init.kind == "str" and n.init.v.split(b"\0")[0] == b"Parser":
                    ctor = e.v[1].v
    if ctor is None or ctor not in mod.functions:
        raise Anchor("no method table entry named Parser")
    itn = None
    for g in mod.globals.values():
        if g.ty.kind == "struct" and g.ty.name == "struct._typeobject" and g.init is not None and g.init.kind == "agg":
            f = g.init.v[26]
            if f.kind == "global" and f.v in mod.functions:
                itn = f.v
    if itn is None:
        raise Anchor("no type object with an iteration function")
    return ctor, itn


class Anchor(Exception):
    pass


def run_config(mod, cfg, max_states=400000, deadline=None):
    """explores one configuration; returns a result dictionary"""
    extra = list(cfg.get("extra", ()))
    for _ in range(6):
        c = dict(cfg, extra=extra)
        world = ParseWorld(mod, c)
        it = Interp(mod, world)
        it.MAX_STATES = max_states
        it.DEADLINE = deadline
        ctor, itn = find_entry(mod)
        unsup = None
        try:
            st = world.init_state(it, ctor, itn)
            it.explore(st)
        except NeedClass as n:
            extra.append(n.const)
            continue
        except Unsupported as e:
            unsup = "%s (line %s)" % (e, e.ins.line if getattr(e, "ins", None) is not None else "?")
        return dict(unsupported=unsup, cfg=c, states=it.states, steps=it.steps, terminals=it.terminals, events=world.events,
                    consumed=world.consumed, blocks=sorted(it.covered), calls=len(it.calls_seen),
                    violations=[dict(kind=v.rule, msg=v.msg, trace=v.trace, stack=v.stack, imprecise=v.world.imprecise)
                                for v in it.violations])
    raise Unsupported("too many character constants")
