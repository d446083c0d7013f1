# -*- coding: utf-8 -*-
"""World of the C units for memory, ownership and failure: every interpreter
call may fail, every object carries the references the C code owns, every
buffer its capacity and the part of it that was written."""
from fractions import Fraction

from .cinterp import Unsupported, Violation, Fork, Terminal, Prune, UNDEF, Interp
from .cz import ZInterp, ZState, Anchor, PENDING, BIG, isnum, expr, eadd
from .zone import Rel

GLOBS = {"_Py_TrueStruct", "_Py_FalseStruct", "_Py_NoneStruct", "_Py_NotImplementedStruct"}
MEM = ("bounds", "use-after-free", "double-free", "null-pointer", "uninitialised", "bad-free")
REF = ("leak", "over-release", "not-owned", "use-after-release", "buffer-leak")
ERR = ("null-pointer", "no-exception", "exception-pending", "ignored-failure", "null-argument")


class W:
    FIELDS = ("nv", "err", "failed", "phase", "ended", "self_", "mod_", "nested", "where", "tabs", "x", "path")

    def __init__(self):
        self.nv = 0
        self.err = None         # pending exception
        self.failed = None      # an allocation failed on this path
        self.phase = None
        self.ended = False      # the input ended without an exception
        self.self_ = None
        self.mod_ = None
        self.nested = 0
        self.where = None
        self.tabs = ()
        self.x = None
        self.path = ()          # decisions taken inside the current instruction

    def copy(self):
        w = W.__new__(W)
        for f in W.FIELDS:
            setattr(w, f, getattr(self, f))
        return w

    def canon(self, conv):
        a = conv(("o", self.self_), False)[0] if self.self_ else None
        b = conv(("o", self.mod_), False)[0] if self.mod_ else None
        x = None
        if self.x is not None:
            x, self.x = self.x.canon(conv)
        return (self.path, self.err, self.failed, self.phase, self.ended, a, b, self.nested, x)

    def roots(self):
        r = []
        if self.self_:
            r.append(("o", self.self_))
        if self.mod_:
            r.append(("o", self.mod_))
        if getattr(self.x, "src", None):
            r.append(("o", self.x.src))
        return r


class MemWorld:
    def __init__(self, mod, driver, alloc_fails=True):
        self.mod = mod
        self.driver = driver
        self.alloc_fails = alloc_fails
        self.counts = {}
        self.funcs = set()
        self.tp = driver_tables(mod)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def entered(self, f):
        self.funcs.add(f)

    # ------------------------------------------------------------ objects
    def new(self, st, typ, ref=1, base=0, **kw):
        return ("o", st.new("obj", tag=typ, ref=ref, base=base, **kw))

    def obj(self, it, st, v, ins, what="an interpreter call", null_ok=False):
        """the live object a pointer stands for"""
        if v == 0:
            raise Violation("null-argument", "a missing object (NULL) is passed to %s" % what, ins)
        if v == UNDEF:
            raise Violation("uninitialised", "an object pointer that was never set is passed to %s" % what, ins)
        if isinstance(v, tuple):
            if v[0] == "p" and v[2] == 0:
                v = ("o", v[1])
            if v[0] == "o":
                d = st.mem.get(v[1])
                if d is None:
                    raise Violation("use-after-release", "an object is used after it was released", ins)
                self.touch(it, st, v[1], ins)
                return d
            if v[0] == "g":
                return self.globobj(st, v[1])
            if v[0] in ("exc", "f"):
                return {"kind": "obj", "tag": "static", "ref": 0, "base": 1, "static": 1}
        raise Unsupported("object %r" % (v,), ins)

    def globobj(self, st, name):
        k = "P:" + name
        if k not in st.mem:
            st.mem[k] = {"kind": "obj", "tag": "static", "ref": 0, "base": 1}
        return st.mem[k]

    def touch(self, it, st, o, ins):
        d = st.mem[o]
        if d.get("freed"):
            if d["kind"] == "obj":
                raise Violation("use-after-release", "an object is used after its last reference was released", ins)
            raise Violation("use-after-free", "memory is used after it was freed", ins)

    def dropped(self, it, st, o):
        d = st.mem[o]
        if d.get("freed"):
            return
        if d["kind"] == "obj" and d["ref"] > 0:
            raise Violation("leak", "the last pointer to an object (%s) is lost while a reference to it is still owned" % self.name(d), None)
        if d["kind"] == "buf" and not d.get("string"):
            raise Violation("buffer-leak", "the last pointer to an allocated buffer is lost", None)

    @staticmethod
    def name(d):
        return {"list": "list", "tuple": "tuple", "str": "string", "self": "the parser", "module": "the module", "any": "an object"}.get(d.get("tag"), str(d.get("tag")))

    def incref(self, it, st, v, ins):
        d = self.obj(it, st, v, ins, "Py_INCREF")
        self.count("reference operations")
        d["ref"] += 1
        if d["ref"] > 12:
            raise Violation("leak", "references to an object pile up", ins)

    def decref(self, it, st, v, ins):
        """-> PENDING if a finaliser was started"""
        d = self.obj(it, st, v, ins, "Py_DECREF")
        self.count("reference operations")
        if d.get("static"):
            raise Violation("over-release", "a reference that is not owned is released", ins)
        if d["ref"] <= 0:
            raise Violation("over-release", "a reference that is not owned (%s) is released" % self.name(d), ins)
        d["ref"] -= 1
        if d["ref"] == 0 and not d["base"]:
            oid = v[1]
            if d["tag"] == "self":
                if self.tp.get("tp_dealloc"):
                    d["ref"] = -1       # being finalised
                    it.start(st, self.tp["tp_dealloc"], [("o", oid)])
                    return PENDING
                d["freed"] = 1
            elif d["tag"] == "module":
                d["ref"] = -1
                if self.tp.get("m_free") and d.get("state"):
                    d["dying"] = 1
                    it.start(st, self.tp["m_free"], [("o", oid)])
                    return PENDING
                d["freed"] = 1
            else:
                self.release_items(it, st, d)
                d["freed"] = 1
        return None

    def release_items(self, it, st, d):
        for k in list(d):
            if isinstance(k, str) and k.startswith("item"):
                x = d.pop(k)
                if isinstance(x, tuple) and x[0] == "o" and x[1] in st.mem:
                    e = st.mem[x[1]]
                    e["base"] = max(0, e["base"] - 1)
                    if e["base"] == 0 and e["ref"] == 0:
                        e["freed"] = 1

    def give(self, it, st, v, ins, what):
        """a reference is handed over (stolen)"""
        d = self.obj(it, st, v, ins, what)
        if d["ref"] <= 0:
            raise Violation("over-release", "a reference that is not owned (%s) is handed over to %s" % (self.name(d), what), ins)
        d["ref"] -= 1
        return d

    # ------------------------------------------------------------- memory
    def on_store(self, it, st, ptr, v, ins):
        pass

    def load_missing(self, it, st, ptr, ty, ins):
        d = st.mem[ptr[1]]
        if d["kind"] == "obj" and d["tag"] != "self" or d["kind"] == "opaque":
            return ("p", st.new("opaque"), 0) if ty.kind == "ptr" else (it.var(st) if ty.bits >= 64 else ("top", "x"))
        return UNDEF

    def load_global(self, it, st, name, ins):
        if name.startswith("PyExc_"):
            return ("exc", name)
        return ("g", name)

    def sizes(self, it, st, obj, ins):
        """capacity of a buffer in elements"""
        d = st.mem[obj]
        es = d.get("elemsize") or 1
        if "cap" not in d:
            b = d.pop("bytes_")
            if es == 1:
                d["cap"] = b
            elif isinstance(b, int):
                d["cap"] = b // es
            else:
                # es*cap <= bytes; equal when the bytes are a multiple
                f = st.facts
                e = expr(b)
                cap = None
                for r in f.e:
                    if b[1] in r:
                        k = Fraction(r[b[1]])
                        rest = {x: -Fraction(c) / k for x, c in r.items() if x != b[1]}
                        q = {x: c / es for x, c in rest.items()}
                        q[None] = q.get(None, Fraction(0)) + Fraction(b[2], es)
                        if all(c.denominator == 1 for c in q.values()) and len([x for x in q if x is not None]) == 1:
                            cap = it.linear(st, {x: int(c) for x, c in q.items()})
                            break
                if cap is None:
                    cap = it.var(st, 0)
                    u, l = it.upper(st, e), it.lower(st, e)
                    if u is not None:
                        f.add_le(cap[1], 0, int(u // es))
                    if l is not None:
                        f.add_le(0, cap[1], -int(l // es))
                    f.add_eq({cap[1]: Fraction(es), b[1]: Fraction(-1), None: Fraction(-b[2])})
                d["cap"] = cap
        return d["cap"]

    def inside(self, it, st, obj, idx, ins, what):
        d = st.mem.get(obj)
        if d is None or d.get("freed"):
            raise Violation("use-after-free", "memory is %s after it was freed" % what, ins)
        if not isnum(idx):
            raise Violation("bounds", "a buffer is %s at an index about which nothing is known" % what, ins)
        cap = self.sizes(it, st, obj, ins)
        self.count("buffer accesses")
        lo = it.lower(st, expr(idx))
        if lo is None or lo < 0:
            raise Violation("bounds", "a buffer is %s at an index that can be negative" % what, ins)
        hi = it.upper(st, eadd(expr(idx), expr(cap), -1))
        if hi is None or hi > -1:
            raise Violation("bounds", "a buffer is %s at an index that can lie behind its end" % what, ins)
        return d

    def buf_store(self, it, st, obj, idx, v, ty, ins):
        d = st.mem.get(obj)
        if d is not None and d.get("elemsize") is None:
            d["elemsize"] = it.mod.sizeof(ty)
        d = self.inside(it, st, obj, idx, ins, "written")
        if ty.kind != "int" or ty.bits < 64:
            return self.byte_store(it, st, obj, idx, v, ins)
        if v == UNDEF:
            return
        # numbers: every written element is described by one variable
        if not isnum(v):
            v = it.var(st)
        if d.get("elem") is None and isinstance(d["init"], int) and d["init"] == 0:
            for k in [k for k in d if isinstance(k, tuple) and k[0] == "pair"]:
                del d[k]
        init = d["init"]
        g = it.upper(st, eadd(expr(idx), expr(init), -1))
        l = it.lower(st, eadd(expr(idx), expr(init), -1))
        if not ((g is not None and g <= 0 and l is not None and l >= 0) or (g is not None and g < 0) or (l is not None and l > 0)):
            e = eadd(expr(idx), expr(init), -1)

            def eq(s):
                if ZInterp.assume_le(s, e) is False or ZInterp.assume_le(s, eadd({None: 0}, e, -1)) is False:
                    return False
                return s.facts.add_eq({k: Fraction(c) for k, c in e.items()})
            raise Fork([("next element", eq), ("written before", lambda s: ZInterp.assume_le(s, eadd(e, {None: 1}))),
                        ("leaving a gap", lambda s: ZInterp.assume_le(s, eadd(eadd({None: 0}, e, -1), {None: 1})))])
        first = isinstance(init, int) and init == 0
        if d.get("elem") is None:
            d["elem"] = ("v", it.fresh(st), 0)
            first = True
        x = d["elem"][1]
        z2 = st.facts.copy()
        z2.forget(x)
        if isinstance(v, int):
            z2.add_le(x, 0, v)
            z2.add_le(0, x, -v)
            z2.add_eq({x: Fraction(1), None: Fraction(-v)})
        else:
            for y in list(z2.vars()) + [0]:
                a, b = z2.get(v[1], y), z2.get(y, v[1])
                if y == v[1]:
                    a = b = 0
                if a is not None:
                    z2.d[(x, y)] = a + v[2]
                if b is not None:
                    z2.d[(y, x)] = b - v[2]
            z2.add_eq({x: Fraction(1), v[1]: Fraction(-1), None: Fraction(-v[2])})
        appended = g is not None and g == 0 and l == 0
        # elements at the same place of two arrays:  partner[k] - this[k] <= c
        for o in sorted((o for o, e in st.mem.items() if isinstance(e, dict) and e.get("kind") == "buf" and o != obj and not e.get("freed") and e.get("last") is not None), key=str):
            e = st.mem[o]
            c = None
            if appended and self.same(it, st, e["init"], it.add(st, idx, 1, ins)):
                c = it.upper(st, eadd(expr(e["last"]), expr(v), -1))
            k = ("pair", o)
            if c is not None and (first or d.get(k) is not None):
                c = max(int(c // 1), -1)
                d[k] = c if first else max(d[k], c)
                if d[k] > 1:
                    del d[k]
            else:
                d.pop(k, None)
        for e in st.mem.values():
            # earlier pairs with this array as the partner end here unless it grew behind them
            if isinstance(e, dict) and e.get("kind") == "buf" and ("pair", obj) in e and not appended:
                del e[("pair", obj)]
        st.facts = z2 if first else st.facts.join(z2)
        for k in ("last", "seen_i", "seen_t"):
            d.pop(k, None)
        if appended:
            d["init"] = it.add(st, idx, 1, ins)
            d["last"] = v

    def byte_store(self, it, st, obj, idx, v, ins):
        pass

    def buf_load(self, it, st, obj, idx, ty, ins):
        d = st.mem.get(obj)
        if d is not None and d.get("elemsize") is None:
            d["elemsize"] = it.mod.sizeof(ty)
        d = self.inside(it, st, obj, idx, ins, "read")
        if ty.kind != "int" or ty.bits < 64:
            return self.byte_load(it, st, obj, idx, ty, ins)
        if "seen_i" in d and self.same(it, st, d["seen_i"], idx):
            return d["seen_t"]
        t = it.var(st)
        hi = it.upper(st, eadd(expr(idx), expr(d["init"]), -1))
        if hi is not None and hi < 0 and d.get("elem"):
            x = d["elem"][1]
            f = st.facts
            for (a, b), c in list(f.d.items()):
                if a == x:
                    f.d[(t[1], b)] = c
                elif b == x:
                    f.d[(a, t[1])] = c
            c1, c2 = f.d.get((x, 0)), f.d.get((0, x))
            rows = []
            for r in f.e:
                if x in r:
                    q = {(t[1] if k == x else k): c for k, c in r.items()}
                    rows.append(q)
            for q in rows:
                f.add_eq(q)
            f.close()
            d["seen_i"], d["seen_t"] = idx, t
            for o, e in list(st.mem.items()):
                if not (isinstance(e, dict) and e.get("kind") == "buf" and not e.get("freed") and o != obj and "seen_i" in e):
                    continue
                i2, t2 = e["seen_i"], e["seen_t"]
                if not self.same(it, st, i2, idx):
                    continue
                if ("pair", o) in d:
                    ZInterp.assume_le(st, eadd(eadd(expr(t2), expr(t), -1), {None: -d[("pair", o)]}))
                if ("pair", obj) in e:
                    ZInterp.assume_le(st, eadd(eadd(expr(t), expr(t2), -1), {None: -e[("pair", obj)]}))
        return t

    @staticmethod
    def same(it, st, a, b):
        e = eadd(expr(a), expr(b), -1)
        return it.upper(st, e) == 0 and it.lower(st, e) == 0

    def byte_load(self, it, st, obj, idx, ty, ins):
        return ("top", "byte")

    def binop(self, it, st, op, a, b, ins):
        for x in (a, b):
            if isinstance(x, tuple) and x[0] in ("top", "chr"):
                return ("top", "x")
        raise Unsupported("operation %s on %r, %r" % (op, a, b), ins)

    def compare(self, it, st, pred, a, b, ins):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] in ("o", "p", "b", "g", "f", "exc"):
                if y == 0:
                    return {"eq": False, "ne": True, "ugt": x is a, "ult": x is b}.get(pred)
                if isinstance(y, tuple) and y[0] in ("o", "p", "b", "g", "f", "exc"):
                    if pred not in ("eq", "ne"):
                        raise Unsupported("pointer ordering", ins)
                    same = self.ident(x) == self.ident(y)
                    if not same and self.maybe_same(st, x, y):
                        return None
                    return same if pred == "eq" else not same
        if isinstance(a, tuple) and a[0] == "top" or isinstance(b, tuple) and b[0] == "top":
            return None
        raise Unsupported("comparison of %r and %r" % (a, b), ins)

    def maybe_same(self, st, x, y):
        """an argument of unknown kind may be one of the interpreter's constants"""
        for u, v in ((x, y), (y, x)):
            if u[0] in ("o", "p") and v[0] == "g" and v[1] in GLOBS and u[1] in st.mem and st.mem[u[1]].get("tag") == "any" and not st.mem[u[1]].get("isu"):
                return True
        return False

    @staticmethod
    def ident(x):
        if x[0] == "p" and x[2] == 0:
            return ("o", x[1])
        if x[0] in ("g", "f"):
            return ("g", x[1])
        return x

    # -------------------------------------------------------------- calls
    def api(self, it, st, name, args, ins):
        if name.startswith("llvm."):
            if name.startswith("llvm.memset"):
                return self.a_memset(it, st, args, ins)
            if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
                return self.a_memcpy(it, st, args, ins)
            return None
        m = getattr(self, "a_" + name, None)
        if m is None:
            raise Unsupported("call of %s" % name, ins)
        self.count("interpreter calls")
        if isinstance(st.forced, tuple) and st.forced[0] == "val":
            r = st.forced[1]
            st.forced = None
            return r
        return m(it, st, args, ins)

    @staticmethod
    def result(v):
        return lambda s: setattr(s, "forced", ("val", v))

    def fallible(self, st, ok, fail=0, exc="MemoryError", label="succeeds", flabel="fails"):
        """the call succeeds (ok(s) gives the result) or fails with an exception"""
        def good(s):
            s.forced = ("val", ok(s))

        def bad(s):
            s.w.err = exc
            s.forced = ("val", fail)
        raise Fork([(label, good), (flabel, bad)])

    def runs_python(self, st, ins, what):
        if st.w.err:
            raise Violation("exception-pending", "%s runs while an exception is pending" % what, ins)

    # references
    def a_vp_INCREF(self, it, st, a, ins):
        self.incref(it, st, a[0], ins)

    def a_vp_XINCREF(self, it, st, a, ins):
        if a[0] != 0:
            self.incref(it, st, a[0], ins)

    def a_vp_DECREF(self, it, st, a, ins):
        return self.decref(it, st, a[0], ins)

    def a_vp_XDECREF(self, it, st, a, ins):
        if a[0] != 0:
            return self.decref(it, st, a[0], ins)
    a_Py_DecRef = a_vp_XDECREF
    a_Py_IncRef = a_vp_XINCREF

    def a_vp_NewRef(self, it, st, a, ins):
        self.incref(it, st, a[0], ins)
        return a[0]

    def a_vp_XNewRef(self, it, st, a, ins):
        if a[0] != 0:
            self.incref(it, st, a[0], ins)
        return a[0]

    def a_vp_CLEAR(self, it, st, a, ins):
        v = it.load(st, a[0], PTR, ins)
        if v == 0:
            return None
        Interp.store(it, st, a[0], 0, None, ins)
        return self.decref(it, st, v, ins)

    def a_vp_SETREF(self, it, st, a, ins):
        v = it.load(st, a[0], PTR, ins)
        Interp.store(it, st, a[0], a[1], None, ins)
        if v == 0:
            raise Violation("null-argument", "Py_SETREF of a missing object", ins)
        return self.decref(it, st, v, ins)

    def a_vp_XSETREF(self, it, st, a, ins):
        v = it.load(st, a[0], PTR, ins)
        Interp.store(it, st, a[0], a[1], None, ins)
        if v != 0:
            return self.decref(it, st, v, ins)

    # arguments
    def a_PyArg_ParseTuple(self, it, st, a, ins):
        return self.parse_args(it, st, self.cstr(it, st, a[1], ins), None, a[2:], ins)

    def a_PyArg_ParseTupleAndKeywords(self, it, st, a, ins):
        return self.parse_args(it, st, self.cstr(it, st, a[2], ins), a[3], a[4:], ins)

    def a_PyArg_UnpackTuple(self, it, st, a, ins):
        mn, mx = a[2], a[3]
        return self.parse_args(it, st, "O" * mn + "|" + "O" * (mx - mn), None, a[4:], ins)

    def cstr(self, it, st, v, ins):
        if isinstance(v, tuple) and v[0] == "p":
            b = st.mem[v[1]].get("bytes")
            if b is not None:
                return bytes(b[v[2]:]).split(b"\0")[0].decode("latin-1")
        raise Unsupported("unknown format text", ins)

    def parse_args(self, it, st, fmt, kw, dst, ins):
        spec = []
        opt = False
        for c in fmt:
            if c in ":;":
                break
            if c == "|":
                opt = True
            elif c == "$":
                pass
            else:
                spec.append((c, opt))
        if len(spec) != len(dst):
            raise Unsupported("argument format %r" % fmt, ins)
        if kw is not None and isinstance(kw, tuple) and kw[0] == "p":
            # the names must be terminated
            d = st.mem[kw[1]]
            n = 0
            while True:
                x = d.get(kw[2] + 8 * n, UNDEF)
                if x == 0:
                    break
                if x == UNDEF:
                    raise Violation("bounds", "the list of argument names has no end", ins)
                n += 1
            if n != len(spec):
                raise Violation("bounds", "%d argument names for %d arguments" % (n, len(spec)), ins)

        def fail(s):
            s.w.err = "TypeError"
            s.forced = ("val", 0)

        def ok(s, given):
            for (c, o), p in zip(spec, dst):
                if o and not given:
                    continue
                if c in "OUS!":
                    x = self.new(s, "any", ref=0, base=1, isu=1 if c == "U" else -1)
                    v = x
                elif c in "pi":
                    v = ("top", "int")
                elif c in "lnL":
                    v = it.var(s)
                else:
                    raise Unsupported("argument format %r" % fmt, ins)
                it.store(s, p, v, None, ins)
            s.forced = ("val", 1)
        alts = [("arguments refused", fail), ("arguments accepted", lambda s: ok(s, True))]
        if any(o for c, o in spec):
            alts.append(("only required arguments", lambda s: ok(s, False)))
            opts = [p for (c, o), p in zip(spec, dst) if o]
            for k in range(len(opts)):
                def one(s, k=k):
                    n = 0
                    for (c, o), p in zip(spec, dst):
                        if o:
                            n += 1
                            if n - 1 != k:
                                continue
                        x = self.new(s, "any", ref=0, base=1, isu=1 if c == "U" else -1)
                        it.store(s, p, x, None, ins)
                    s.forced = ("val", 1)
                alts.append(("with optional argument %d only" % (k + 1), one))
        raise Fork(alts)

    def a_PyObject_IsTrue(self, it, st, a, ins):
        self.obj(it, st, a[0], ins, "PyObject_IsTrue")
        self.runs_python(st, ins, "PyObject_IsTrue")
        raise Fork([("true", self.result(1)), ("false", self.result(0)), ("raises", lambda s: (setattr(s.w, "err", "E"), setattr(s, "forced", ("val", -1)))[1])])

    def a_PyLong_AsLong(self, it, st, a, ins):
        self.obj(it, st, a[0], ins, "PyLong_AsLong")

        def ok(s):
            s.forced = ("val", it.var(s))
        raise Fork([("a number", ok), ("too large", lambda s: (setattr(s.w, "err", "OverflowError"), setattr(s, "forced", ("val", -1)))[1])])
    a_PyLong_AsSsize_t = a_PyLong_AsLongLong = a_PyNumber_AsSsize_t = a_PyLong_AsLong

    def kindtest(self, it, st, v, ins, key):
        d = self.obj(it, st, v, ins, "a type test")
        t = d.get("tag")
        if key == "isu":
            if t == "str":
                return 1
            if t != "any":
                return 0
            if d["isu"] >= 0:
                return d["isu"]
            o = v[1]
            raise Fork([("a string", lambda s: (s.mem[o].__setitem__("isu", 1), setattr(s, "forced", ("val", 1)))[1]),
                        ("not a string", lambda s: (s.mem[o].__setitem__("isu", 0), setattr(s, "forced", ("val", 0)))[1])])
        return ("top", "kind")

    def a_vp_IsUnicode(self, it, st, a, ins):
        return self.kindtest(it, st, a[0], ins, "isu")

    def a_vp_IsLong(self, it, st, a, ins):
        return self.kindtest(it, st, a[0], ins, "isl")
    a_vp_IsBool = a_vp_IsLong

    def a_vp_TYPE(self, it, st, a, ins):
        self.obj(it, st, a[0], ins, "Py_TYPE")
        return ("p", st.new("opaque"), 0)

    def a_vp_TypeCheck(self, it, st, a, ins):
        self.obj(it, st, a[0], ins, "a type test")
        return ("top", "kind")

    # strings
    def string(self, it, st, v, ins, what):
        d = self.obj(it, st, v, ins, what)
        if d.get("tag") == "str" or d.get("isu") == 1:
            if "len" not in d:
                d["len"] = it.var(st, 0, BIG)
            return d
        raise Violation("bounds", "%s is used on an object that is not known to be a string" % what, ins)

    def a_vp_READY(self, it, st, a, ins):
        self.string(it, st, a[0], ins, "PyUnicode_READY")
        raise Fork([("succeeds", self.result(0)), ("fails", lambda s: (setattr(s.w, "err", "MemoryError"), setattr(s, "forced", ("val", -1)))[1])])

    def a_vp_KIND(self, it, st, a, ins):
        self.string(it, st, a[0], ins, "PyUnicode_KIND")
        return ("top", "kind")

    def a_vp_DATA(self, it, st, a, ins):
        self.string(it, st, a[0], ins, "PyUnicode_DATA")
        return ("p", a[0][1], 1)       # inside the string object

    def a_vp_MAXCHAR(self, it, st, a, ins):
        self.string(it, st, a[0], ins, "PyUnicode_MAX_CHAR_VALUE")
        return ("top", "maxchar")

    def a_vp_GET_LENGTH(self, it, st, a, ins):
        return self.string(it, st, a[0], ins, "PyUnicode_GET_LENGTH")["len"]

    def a_PyUnicode_GetLength(self, it, st, a, ins):
        d = self.obj(it, st, a[0], ins, "PyUnicode_GetLength")
        if d.get("tag") == "any" and d["isu"] != 1 or d.get("tag") not in ("any", "str"):
            raise Fork([("fails", lambda s: (setattr(s.w, "err", "TypeError"), setattr(s, "forced", ("val", -1)))[1])])
        return self.string(it, st, a[0], ins, "PyUnicode_GetLength")["len"]

    def char(self, it, st, o, idx, ins):
        return ("top", "chr")

    def read(self, it, st, o, idx, ins):
        d = st.mem[o]
        self.count("string accesses")
        if not isnum(idx):
            raise Violation("bounds", "a string is read at an index about which nothing is known", ins)
        lo = it.lower(st, expr(idx))
        if lo is None or lo < 0:
            raise Violation("bounds", "a string is read at an index that can be negative", ins)
        hi = it.upper(st, eadd(expr(idx), expr(d["len"]), -1))
        if hi is None or hi > -1:
            raise Violation("bounds", "a string is read at an index that can lie behind its end", ins)
        return self.char(it, st, o, idx, ins)

    def a_vp_READ(self, it, st, a, ins):
        v = a[1]
        if isinstance(v, tuple) and v[0] == "p":
            if v[1] not in st.mem:
                raise Violation("use-after-release", "the characters of a released string are read", ins)
            self.touch(it, st, v[1], ins)
            if "len" not in st.mem[v[1]]:
                raise Unsupported("characters of an unknown object", ins)
            return self.read(it, st, v[1], a[2], ins)
        raise Unsupported("character read through %r" % (v,), ins)

    def a_vp_READ_CHAR(self, it, st, a, ins):
        self.string(it, st, a[0], ins, "PyUnicode_READ_CHAR")
        return self.read(it, st, a[0][1], a[1], ins)

    def a_PyUnicode_ReadChar(self, it, st, a, ins):
        d = self.string(it, st, a[0], ins, "PyUnicode_ReadChar")
        idx = a[1]
        e1 = expr(idx)
        e2 = eadd(expr(idx), expr(d["len"]), -1)
        lo, hi = it.lower(st, e1), it.upper(st, e2)
        if lo is not None and lo >= 0 and hi is not None and hi <= -1:
            return self.char(it, st, a[0][1], idx, ins)

        def bad(s):
            s.w.err = "IndexError"
            s.forced = ("val", ("top", "chr"))
        if it.lower(st, e2) is not None and it.lower(st, e2) >= 0 or it.upper(st, e1) is not None and it.upper(st, e1) < 0:
            raise Fork([("index out of range", bad)])
        raise Fork([("index in range", lambda s: ZInterp.assume_le(s, eadd(e2, {None: 1})) and ZInterp.assume_le(s, eadd({None: 0}, e1, -1))), ("index out of range", bad)])

    def a_vp_WRITE(self, it, st, a, ins):
        v = a[1]
        if isinstance(v, tuple) and v[0] == "p" and v[1] in st.mem and "len" in st.mem[v[1]]:
            self.read(it, st, v[1], a[2], ins)
            return None
        raise Unsupported("character written through %r" % (v,), ins)

    def a_PyUnicode_New(self, it, st, a, ins):
        n = a[0]
        if not isnum(n):
            raise Unsupported("string of unknown length", ins)
        r = it.compare(st, "slt", n, 0, ins)
        if r:
            raise Fork([("negative length", lambda s: (setattr(s.w, "err", "SystemError"), setattr(s, "forced", ("val", 0)))[1])])
        self.fallible(st, lambda s: self.new(s, "str", len=n))

    def from_memory(self, it, st, p, n, ins, scale=1):
        if not isnum(n):
            raise Unsupported("string of unknown length", ins)
        if isinstance(p, tuple) and p[0] == "b":
            lo = it.lower(st, expr(n))
            if lo is None or lo < 0:
                raise Violation("bounds", "a string of a length that can be negative is made", ins)
            hi0 = it.upper(st, expr(n))
            if not (hi0 is not None and hi0 == 0):
                d = st.mem.get(p[1])
                if d is None or d.get("freed"):
                    raise Violation("use-after-free", "a string is made from freed memory", ins)
                cap = self.sizes(it, st, p[1], ins)
                es = d.get("elemsize") or 1
                need = {k: c * scale for k, c in expr(n).items()}
                have = {k: c * es for k, c in expr(it.add(st, cap, p[2], ins, -1)).items()}
                self.count("buffer accesses")
                u = it.upper(st, eadd(need, have, -1))
                if u is None or u > 0:
                    raise Violation("bounds", "a string is made of more characters than the buffer holds", ins)
        elif p == 0:
            hi = it.upper(st, expr(n))
            if not (hi is not None and hi <= 0):
                raise Violation("null-pointer", "a string is made from a null pointer", ins)
        elif p == UNDEF:
            raise Violation("uninitialised", "a string is made from a pointer that was never set", ins)
        elif isinstance(p, tuple) and p[0] == "p" and st.mem.get(p[1], {}).get("bytes") is not None:
            pass
        else:
            raise Unsupported("string made from %r" % (p,), ins)
        self.content(it, st, p, n, ins)
        self.fallible(st, lambda s: self.new(s, "str", len=n))

    def content(self, it, st, p, n, ins):
        pass

    def a_PyUnicode_FromKindAndData(self, it, st, a, ins):
        return self.from_memory(it, st, a[1], a[2], ins, a[0] if isinstance(a[0], int) else 4)

    def a_PyUnicode_FromStringAndSize(self, it, st, a, ins):
        return self.from_memory(it, st, a[0], a[1], ins)

    def a_PyUnicode_DecodeASCII(self, it, st, a, ins):
        return self.from_memory(it, st, a[0], a[1], ins)
    a_PyUnicode_DecodeLatin1 = a_PyUnicode_DecodeUTF8 = a_PyUnicode_DecodeASCII

    def a_PyUnicode_FromString(self, it, st, a, ins):
        self.fallible(st, lambda s: self.new(s, "str"))

    def a_PyUnicode_CopyCharacters(self, it, st, a, ins):
        to, ts, fr, fs, n = a
        d, s_ = self.string(it, st, to, ins, "PyUnicode_CopyCharacters"), self.string(it, st, fr, ins, "PyUnicode_CopyCharacters")
        self.fallible(st, lambda s: n if isnum(n) else it.var(s, 0), fail=-1, exc="E")

    def a_PyUnicode_Substring(self, it, st, a, ins):
        self.string(it, st, a[0], ins, "PyUnicode_Substring")
        self.fallible(st, lambda s: self.new(s, "str"))

    # exceptions
    def a_PyErr_Format(self, it, st, a, ins):
        if a[0] == 0 or a[0] == UNDEF:
            raise Violation("null-argument", "an exception is raised with a class that is not there", ins)
        st.w.err = a[0][1] if isinstance(a[0], tuple) and a[0][0] == "exc" else "Error"
        return 0

    def a_PyErr_SetString(self, it, st, a, ins):
        self.a_PyErr_Format(it, st, a, ins)
    a_PyErr_SetObject = a_PyErr_SetString
    a_PyErr_SetNone = a_PyErr_SetString

    def a_PyErr_NoMemory(self, it, st, a, ins):
        st.w.err = "MemoryError"
        return 0

    def a_PyErr_Clear(self, it, st, a, ins):
        st.w.err = None

    def a_PyErr_BadInternalCall(self, it, st, a, ins):
        st.w.err = "SystemError"

    def a_PyErr_Occurred(self, it, st, a, ins):
        return ("exc", "pending") if st.w.err else 0

    def a_PyErr_ExceptionMatches(self, it, st, a, ins):
        if not st.w.err:
            raise Violation("no-exception", "the pending exception is inspected when there is none", ins)
        return ("top", "int")

    # containers
    def a_PyList_New(self, it, st, a, ins):
        self.fallible(st, lambda s: self.new(s, "list"))

    def a_PyList_Append(self, it, st, a, ins):
        l = self.obj(it, st, a[0], ins, "PyList_Append")
        x = self.obj(it, st, a[1], ins, "PyList_Append")
        if l["tag"] != "list":
            raise Violation("null-argument", "PyList_Append on something that is not a list", ins)

        def ok(s):
            if isinstance(a[1], tuple) and a[1][0] == "o":
                s.mem[a[1][1]]["base"] = 1
            return 0
        self.fallible(st, ok, fail=-1)

    def a_PyList_Size(self, it, st, a, ins):
        self.obj(it, st, a[0], ins, "PyList_Size")
        return it.var(st, 0, BIG)
    a_vp_ListSize = a_PyTuple_Size = a_vp_TupleSize = a_PyList_Size

    def a_PyTuple_New(self, it, st, a, ins):
        n = a[0]
        self.fallible(st, lambda s: self.new(s, "tuple", size=n if isinstance(n, int) else -1))

    def set_item(self, it, st, a, ins, what):
        d = self.obj(it, st, a[0], ins, what)
        if d["tag"] != "tuple":
            raise Unsupported("%s on something else than a tuple" % what, ins)
        if isinstance(a[1], int) and d["size"] >= 0 and not 0 <= a[1] < d["size"]:
            raise Violation("bounds", "an item is stored outside a tuple", ins)
        x = self.give(it, st, a[1 + 1], ins, what)
        if isinstance(a[2], tuple) and a[2][0] == "o":
            x["base"] += 1
            st.mem[a[0][1]]["item%s" % a[1]] = a[2]

    def a_PyTuple_SetItem(self, it, st, a, ins):
        def bad(s):
            # the item is released on failure as well
            v = a[2]
            self.give(it, s, v, ins, "PyTuple_SetItem")
            if isinstance(v, tuple) and v[0] == "o":
                e = s.mem[v[1]]
                if e["ref"] == 0 and not e["base"]:
                    e["freed"] = 1
            s.w.err = "SystemError"
            s.forced = ("val", -1)

        def ok(s):
            self.set_item(it, s, a, ins, "PyTuple_SetItem")
            s.forced = ("val", 0)
        self.obj(it, st, a[0], ins, "PyTuple_SetItem")
        self.obj(it, st, a[2], ins, "PyTuple_SetItem")
        raise Fork([("succeeds", ok), ("fails", bad)])

    def a_vp_TupleSet(self, it, st, a, ins):
        self.set_item(it, st, a, ins, "PyTuple_SET_ITEM")

    def pack(self, it, s, items, steal, ins, what):
        t = self.new(s, "tuple", size=len(items))
        for i, v in enumerate(items):
            if steal[i]:
                self.give(it, s, v, ins, what)
            if isinstance(v, tuple) and v[0] == "o":
                s.mem[v[1]]["base"] += 1
                s.mem[t[1]]["item%d" % i] = v
        return t

    def a_PyTuple_Pack(self, it, st, a, ins):
        items = a[1:1 + a[0]]
        for v in items:
            self.obj(it, st, v, ins, "PyTuple_Pack")
        self.fallible(st, lambda s: self.pack(it, s, items, [False] * len(items), ins, "PyTuple_Pack"))

    def a_Py_BuildValue(self, it, st, a, ins):
        fmt = [c for c in self.cstr(it, st, a[0], ins) if c not in "() ,"]
        if any(c not in "ON" for c in fmt):
            raise Unsupported("Py_BuildValue", ins)
        items = a[1:1 + len(fmt)]
        for v in items:
            self.obj(it, st, v, ins, "Py_BuildValue")

        def bad(s):
            for c, v in zip(fmt, items):
                if c == "N":
                    self.give(it, s, v, ins, "Py_BuildValue")
            s.w.err = "MemoryError"
            s.forced = ("val", 0)
        raise Fork([("succeeds", lambda s: setattr(s, "forced", ("val", self.pack(it, s, items, [c == "N" for c in fmt], ins, "Py_BuildValue")))), ("fails", bad)])

    def a_PyBool_FromLong(self, it, st, a, ins):
        r = it.compare(st, "ne", a[0], 0, ins)
        g = ("g", "_Py_TrueStruct") if r else ("g", "_Py_FalseStruct")
        self.incref(it, st, g, ins)
        return g

    # iteration
    def a_PyObject_GetIter(self, it, st, a, ins):
        self.obj(it, st, a[0], ins, "PyObject_GetIter")
        self.runs_python(st, ins, "PyObject_GetIter")
        self.fallible(st, lambda s: self.new(s, "any", isu=0), exc="E", label="iterable", flabel="not iterable")

    def a_PyObject_SelfIter(self, it, st, a, ins):
        self.incref(it, st, a[0], ins)
        return a[0]

    def a_PyIter_Next(self, it, st, a, ins):
        self.obj(it, st, a[0], ins, "PyIter_Next")
        self.runs_python(st, ins, "PyIter_Next")
        w = st.w

        def item(s):
            s.forced = ("val", self.new(s, "any", isu=-1))

        def end(s):
            s.w.ended = True
            s.forced = ("val", 0)

        def err(s):
            s.w.err = "E"
            s.forced = ("val", 0)
        alts = [("next item", item), ("end of the input", end), ("the input raises", err)]
        if w.phase == "next" and not w.nested and w.self_:
            def nested(s):
                s.w.nested = 1
                it.start(s, self.tp["tp_iternext"], [("o", s.w.self_)], cb="nested")
            alts.append(("the input uses the parser itself", nested))
        raise Fork(alts)

    # memory
    def alloc(self, it, st, nbytes, ins, fill=None):
        if not isnum(nbytes):
            raise Unsupported("allocation of unknown size", ins)

        def ok(s):
            o = s.new("buf", bytes_=nbytes, init=0)
            if fill:
                fill(s, o)
            s.forced = ("val", ("b", o, 0))

        def bad(s):
            s.w.failed = (ins.fn.srcname, ins.line)
            s.forced = ("val", 0)
        raise Fork([("allocation succeeds", ok)] + ([("allocation fails", bad)] if self.alloc_fails else []))

    def a_malloc(self, it, st, a, ins):
        return self.alloc(it, st, a[0], ins)
    a_PyMem_Malloc = a_PyMem_RawMalloc = a_PyObject_Malloc = a_malloc

    def a_calloc(self, it, st, a, ins):
        if not (isinstance(a[0], int) or isinstance(a[1], int)) or not (isnum(a[0]) and isnum(a[1])):
            raise Unsupported("allocation of unknown size", ins)
        n = a[0] * a[1] if isinstance(a[0], int) and isinstance(a[1], int) else it.binop(st, "mul", a[0], a[1], ins)
        return self.alloc(it, st, n, ins)
    a_PyMem_Calloc = a_PyMem_RawCalloc = a_calloc

    def a_realloc(self, it, st, a, ins):
        p, n = a
        if p == 0:
            return self.alloc(it, st, n, ins)
        if not (isinstance(p, tuple) and p[0] == "b"):
            if p == UNDEF:
                raise Violation("uninitialised", "a pointer that was never set is reallocated", ins)
            raise Unsupported("realloc of %r" % (p,), ins)
        d = st.mem.get(p[1])
        if d is None or d.get("freed"):
            raise Violation("double-free", "freed memory is reallocated", ins)
        if self.offset(it, st, p):
            raise Violation("bad-free", "a pointer into the middle of a buffer is reallocated", ins)
        if not isnum(n):
            raise Unsupported("allocation of unknown size", ins)

        def ok(s):
            old = s.mem[p[1]]
            o = s.new("buf", bytes_=n, init=old["init"])
            for k in ("elemsize", "elem", "tail_i", "tail_v", "last"):
                if k in old:
                    s.mem[o][k] = old[k]
            for k in old:
                if isinstance(k, tuple) and k[0] == "pair":
                    s.mem[o][k] = old[k]
            for e in s.mem.values():
                if isinstance(e, dict) and ("pair", p[1]) in e:
                    e[("pair", o)] = e.pop(("pair", p[1]))
            self.moved(s, old, o)
            old["freed"] = 1
            # what lies behind the new end is lost
            if s.mem[o].get("elemsize") and not (isinstance(old["init"], int) and old["init"] == 0):
                cap = self.sizes(it, s, o, ins)
                e = eadd(expr(old["init"]), expr(cap), -1)
                u = it.upper(s, e)
                if u is None or u > 0:
                    s.mem[o]["init"] = 0
                    for k in [k for k in s.mem[o] if isinstance(k, tuple) or k == "last"]:
                        del s.mem[o][k]
                    for e in s.mem.values():
                        if isinstance(e, dict):
                            e.pop(("pair", o), None)
            s.forced = ("val", ("b", o, 0))

        def bad(s):
            s.w.failed = (ins.fn.srcname, ins.line)
            s.forced = ("val", 0)
        raise Fork([("allocation succeeds", ok)] + ([("allocation fails", bad)] if self.alloc_fails else []))
    a_PyMem_Realloc = a_PyMem_RawRealloc = a_PyObject_Realloc = a_realloc

    def moved(self, s, old, o):
        pass

    @staticmethod
    def offset(it, st, p):
        return p[2] != 0 and not (isnum(p[2]) and it.upper(st, expr(p[2])) == 0 and it.lower(st, expr(p[2])) == 0)

    def a_free(self, it, st, a, ins):
        p = a[0]
        if p == 0:
            return
        if p == UNDEF:
            raise Violation("uninitialised", "a pointer that was never set is freed", ins)
        if not (isinstance(p, tuple) and p[0] == "b"):
            raise Violation("bad-free", "memory that was not allocated by the module is freed", ins)
        d = st.mem.get(p[1])
        if d is None or d.get("freed"):
            raise Violation("double-free", "memory is freed twice", ins)
        if self.offset(it, st, p):
            raise Violation("bad-free", "a pointer into the middle of a buffer is freed", ins)
        d["freed"] = 1
    a_PyMem_Free = a_PyMem_RawFree = a_PyObject_Free = a_free

    def range_(self, it, st, p, n, ins, what):
        if isinstance(p, tuple) and p[0] == "b":
            d = st.mem.get(p[1])
            if d is None or d.get("freed"):
                raise Violation("use-after-free", "memory is %s after it was freed" % what, ins)
            if not isnum(n):
                raise Violation("bounds", "a buffer is %s over an unknown length" % what, ins)
            es = d.get("elemsize") or 1
            cap = self.sizes(it, st, p[1], ins)
            l1, l2 = it.lower(st, expr(p[2])), it.lower(st, expr(n))
            if l1 is None or l1 < 0 or l2 is None or l2 < 0:
                raise Violation("bounds", "a buffer is %s from an index or over a length that can be negative" % what, ins)
            # offset*es + n <= cap*es
            e = eadd(expr(n), {k: c * es for k, c in expr(p[2]).items()})
            e = eadd(e, {k: c * es for k, c in expr(cap).items()}, -1)
            u = it.upper(st, e)
            self.count("buffer accesses")
            if u is None or u > 0:
                raise Violation("bounds", "a buffer is %s beyond its end" % what, ins)
            return d
        if p == 0:
            raise Violation("null-pointer", "a null pointer is %s" % what, ins)
        return None

    def a_memset(self, it, st, a, ins):
        self.range_(it, st, a[0], a[2], ins, "filled")
        return a[0]

    def a_memcpy(self, it, st, a, ins):
        self.range_(it, st, a[0], a[2], ins, "written")
        self.range_(it, st, a[1], a[2], ins, "read")
        return a[0]
    a_memmove = a_memcpy

    # parser objects and modules
    def a__PyObject_GC_New(self, it, st, a, ins):
        def ok(s):
            o = self.new(s, "self", track=0)
            return o
        self.fallible(st, ok)
    a_PyObject_GC_New = a__PyObject_New = a__PyObject_GC_New

    def a_PyObject_GC_Track(self, it, st, a, ins):
        d = self.obj(it, st, a[0], ins, "PyObject_GC_Track")
        if d.get("track"):
            raise Violation("bad-free", "an object is tracked twice", ins)
        d["track"] = 1

    def a_PyObject_GC_UnTrack(self, it, st, a, ins):
        d = self.obj(it, st, a[0], ins, "PyObject_GC_UnTrack")
        d["track"] = 0

    def a_PyObject_GC_Del(self, it, st, a, ins):
        d = self.obj(it, st, a[0], ins, "PyObject_GC_Del")
        if d["tag"] != "self" or d["ref"] != -1:
            raise Violation("bad-free", "an object that is still in use is destroyed", ins)
        d["freed"] = 1
        d["ref"] = 0
        # what it holds must have been released
        for k in list(d):
            if isinstance(k, int):
                v = d[k]
                if isinstance(v, tuple) and v[0] == "o" and v[1] in st.mem and st.mem[v[1]]["kind"] == "obj" and st.mem[v[1]]["ref"] > 0 and not st.mem[v[1]].get("freed"):
                    raise Violation("leak", "a destroyed parser still holds a reference (%s)" % self.name(st.mem[v[1]]), ins)
                if isinstance(v, tuple) and v[0] == "b" and v[1] in st.mem and not st.mem[v[1]].get("freed"):
                    raise Violation("buffer-leak", "a destroyed parser still holds its buffer", ins)
                del d[k]
    a_PyObject_Del = a_PyObject_GC_Del

    def a_PyType_Ready(self, it, st, a, ins):
        self.fallible(st, lambda s: 0, fail=-1)

    def a_PyModule_Create2(self, it, st, a, ins):
        def ok(s):
            m = self.new(s, "module")
            so = s.new("modstate", tag="modstate")
            s.mem[so][0] = 0
            s.mem[m[1]]["state"] = ("p", so, 0)
            s.w.mod_ = m[1]
            return m
        self.fallible(st, ok)

    def a_PyModule_GetState(self, it, st, a, ins):
        d = self.obj(it, st, a[0], ins, "PyModule_GetState")
        if d["tag"] != "module":
            raise Unsupported("state of something that is not a module", ins)
        return d.get("state", 0)

    def a_PyState_FindModule(self, it, st, a, ins):
        if st.w.mod_ is None:
            raise Unsupported("module lookup before creation", ins)
        return ("o", st.w.mod_)

    def a_PyModule_AddStringConstant(self, it, st, a, ins):
        self.obj(it, st, a[0], ins, "PyModule_AddStringConstant")
        self.fallible(st, lambda s: 0, fail=-1)
    a_PyModule_AddIntConstant = a_PyModule_AddStringConstant

    def a_PyModule_AddObject(self, it, st, a, ins):
        self.obj(it, st, a[0], ins, "PyModule_AddObject")
        self.obj(it, st, a[2], ins, "PyModule_AddObject")

        def ok(s):
            d = self.give(it, s, a[2], ins, "PyModule_AddObject")
            d["base"] = 1
            return 0
        self.fallible(st, ok, fail=-1)

    def a_PyModule_AddObjectRef(self, it, st, a, ins):
        self.obj(it, st, a[0], ins, "PyModule_AddObjectRef")
        self.obj(it, st, a[2], ins, "PyModule_AddObjectRef")

        def ok(s):
            s.mem[a[2][1]]["base"] = 1
            return 0
        self.fallible(st, ok, fail=-1)

    def a_PyErr_NewException(self, it, st, a, ins):
        self.fallible(st, lambda s: self.new(s, "class"))

    def a___visit(self, it, st, a, ins):
        self.obj(it, st, a[0], ins, "the visitor of the garbage collector")
        raise Fork([("continue", self.result(0)), ("stop", self.result(1))])

    # ------------------------------------------------------------ returns
    def slots(self, st, extra=()):
        """object -> number of references that are held where they belong"""
        n = {}
        for o, d in st.mem.items():
            if not isinstance(d, dict) or d.get("freed"):
                continue
            if d["kind"] == "modstate" or (d["kind"] == "obj" and d["tag"] == "self"):
                for k, v in d.items():
                    if isinstance(k, int) and isinstance(v, tuple) and v[0] in ("o", "p") and v[1] in st.mem and st.mem[v[1]]["kind"] == "obj":
                        n[v[1]] = n.get(v[1], 0) + 1
        for v in extra:
            if isinstance(v, tuple) and v[0] in ("o", "p"):
                n[v[1]] = n.get(v[1], 0) + 1
        return n

    def balance(self, it, st, extra, what, ins):
        """every reference the code owns is held by a structure or handed out"""
        n = self.slots(st, extra)
        self.count("exits checked")
        for o in sorted(st.mem, key=str):
            d = st.mem[o]
            if not isinstance(d, dict) or d["kind"] != "obj" or d.get("freed"):
                continue
            want = n.get(o, 0)
            if d["tag"] == "module" and o == st.w.mod_:
                if d["ref"] != want and st.w.phase == "init":
                    raise Violation("leak" if d["ref"] > want else "over-release", "%s returns with %d references to the module instead of %d" % (what, d["ref"], want), ins)
                continue
            have = max(d["ref"], 0)
            if have > want:
                raise Violation("leak", "%s returns while it still owns %d reference%s to %s" % (what, have - want, "s" if have - want > 1 else "", self.name(d)), ins)
            if have < want:
                raise Violation("over-release", "after %s the parser, the module or the caller holds a reference to %s that was never acquired" % (what, self.name(d)), ins)
        for o in sorted(st.mem, key=str):
            d = st.mem[o]
            if isinstance(d, dict) and d["kind"] == "buf" and not d.get("freed"):
                held = any(isinstance(x, dict) and not x.get("freed") and x["kind"] == "obj" and x["tag"] == "self" and any(isinstance(v, tuple) and v[0] == "b" and v[1] == o for v in x.values()) for x in st.mem.values())
                if not held:
                    raise Violation("buffer-leak", "%s returns without freeing a buffer" % what, ins)

    def ret_object(self, it, st, v, what, ins, none_ok=False):
        """the result of a function that returns an object"""
        w = st.w
        if v == 0:
            if w.err is None and not none_ok:
                raise Violation("no-exception", "%s reports failure without setting an exception" % what, ins)
        else:
            if w.err is not None:
                raise Violation("exception-pending", "%s returns a result while an exception is pending" % what, ins)
            if w.failed is not None:
                raise Violation("ignored-failure", "%s returns a result although an allocation failed (%s line %s)" % (what, w.failed[0], w.failed[1]), ins)
            self.obj(it, st, v, ins, "the caller")

    def finished(self, it, st, v, ins, cb):
        return self.driver.finished(self, it, st, v, ins, cb)


class PTRT:
    kind = "ptr"
    bits = 64


PTR = PTRT()


def driver_tables(mod):
    """entry points by the tables the interpreter sees"""
    t = {"methods": [], "init": []}

    def fname(e):
        while e.kind == "cast":
            e = e.v[0]
        return e.v if e.kind == "global" and e.v in mod.functions else None
    for g in mod.globals.values():
        if g.init is None or g.init.kind != "agg":
            continue
        name = getattr(g.ty, "name", None)
        if g.ty.kind == "array" and getattr(g.ty.elem, "name", None) == "struct.PyMethodDef":
            for e in g.init.v:
                if e.kind == "agg" and e.v[0].kind == "global":
                    n = mod.globals.get(e.v[0].v)
                    f = fname(e.v[1])
                    if f and n is not None and n.init.kind == "str":
                        t["methods"].append((n.init.v.split(b"\0")[0].decode(), f))
        if name == "struct._typeobject":
            for k, i in (("tp_dealloc", 4), ("tp_traverse", 21), ("tp_clear", 22), ("tp_iternext", 26), ("tp_iter", 25)):
                f = fname(g.init.v[i])
                if f:
                    t[k] = f
        if name == "struct.PyModuleDef":
            for k, i in (("m_traverse", 6), ("m_clear", 7), ("m_free", 8)):
                f = fname(g.init.v[i])
                if f:
                    t[k] = f
    for f in mod.functions:
        if f.startswith("PyInit_"):
            t["init"].append(f)
    return t


class FuncDriver:
    """one call of a module-level function"""

    def __init__(self, name):
        self.name = name

    def init(self, world, it):
        st = ZState()
        st.facts = Rel()
        st.w = W()
        st.w.phase = "func"
        m = world.new(st, "module", ref=0, base=1)
        a = world.new(st, "args", ref=0, base=1)
        st.w.mod_ = m[1]
        n = len(it.mod.functions[self.name].params)
        it.start(st, self.name, [m, a, world.new(st, "args", ref=0, base=1)][:n])
        return st

    def finished(self, world, it, st, v, ins, cb):
        world.ret_object(it, st, v, self.name, ins)
        world.balance(it, st, [v] if v != 0 else [], self.name, ins)
        raise Terminal()


class InitDriver:
    """module initialisation, then the module's own slots"""

    def __init__(self, name):
        self.name = name

    def init(self, world, it):
        st = ZState()
        st.facts = Rel()
        st.w = W()
        st.w.phase = "init"
        it.start(st, self.name, [])
        return st

    def finished(self, world, it, st, v, ins, cb):
        w = st.w
        tp = world.tp
        if w.phase == "init":
            world.ret_object(it, st, v, self.name, ins)
            if v == 0:
                if w.mod_ is not None and not st.mem[w.mod_].get("freed"):
                    d = st.mem[w.mod_]
                    if d["ref"] > 0:
                        raise Violation("leak", "%s fails without releasing the module" % self.name, ins)
                    # the finaliser of the module ran
                    d["freed"] = 1
                for o in sorted(st.mem, key=str):
                    d = st.mem[o]
                    if isinstance(d, dict) and d["kind"] == "obj" and not d.get("freed") and d["ref"] > 0:
                        raise Violation("leak", "%s fails while it still owns a reference to %s" % (self.name, world.name(d)), ins)
                raise Terminal()
            if not (isinstance(v, tuple) and v[0] == "o" and v[1] == w.mod_):
                raise Violation("not-owned", "%s returns something that is not the new module" % self.name, ins)
            world.balance(it, st, [v], self.name, ins)
            w.phase = "idle"
        elif w.phase == "traverse":
            w.phase = "idle"
        elif w.phase == "clear":
            w.phase = "cleared"
        elif w.phase == "free":
            d = st.mem[w.mod_]
            s = d.get("state")
            if s and s[1] in st.mem:
                x = st.mem[s[1]]
                for k, y in x.items():
                    if isinstance(k, int) and isinstance(y, tuple) and y[0] == "o" and y[1] in st.mem and st.mem[y[1]]["ref"] > 0 and not st.mem[y[1]].get("freed"):
                        raise Violation("leak", "a destroyed module still holds a reference (%s)" % world.name(st.mem[y[1]]), ins)
            raise Terminal()
        alts = []

        def go(phase, f, args):
            def fn(s):
                s.w.phase = phase
                if phase == "free":
                    s.mem[s.w.mod_]["ref"] = 0
                it.start(s, f, args(s))
            return fn
        me = lambda s: ("o", s.w.mod_)
        if tp.get("m_traverse"):
            alts.append(("garbage collection visits", go("traverse", tp["m_traverse"], lambda s: [me(s), ("f", "__visit"), 0])))
        if tp.get("m_clear") and w.phase != "cleared":
            alts.append(("the module is cleared", go("clear", tp["m_clear"], lambda s: [me(s)])))
        if tp.get("m_free"):
            alts.append(("the module is destroyed", go("free", tp["m_free"], lambda s: [me(s)])))
        if not alts:
            raise Terminal()
        raise Fork(alts)


class LifeDriver:
    """construction of a parser and every sequence of calls on it"""

    def __init__(self, ctor):
        self.name = ctor

    def init(self, world, it):
        if not world.tp.get("tp_iternext") or not world.tp.get("tp_dealloc"):
            raise Anchor("no type object with iteration and destruction functions")
        st = ZState()
        st.facts = Rel()
        st.w = W()
        st.w.phase = "ctor"
        m = world.new(st, "module", ref=0, base=1)
        so = st.new("modstate", tag="modstate")
        c = world.new(st, "class", ref=1, base=1)
        st.mem[so][0] = c
        st.mem[m[1]]["state"] = ("p", so, 0)
        st.w.mod_ = m[1]
        a = world.new(st, "args", ref=0, base=1)
        k = world.new(st, "args", ref=0, base=1)
        n = len(it.mod.functions[self.name].params)
        it.start(st, self.name, [m, a, k][:n])
        return st

    def finished(self, world, it, st, v, ins, cb):
        w = st.w
        tp = world.tp
        if cb == "nested":
            # the input used the parser; whatever it got is dropped again
            if v != 0:
                if w.err is not None:
                    raise Violation("exception-pending", "iteration returns a record while an exception is pending", ins)
                d = world.obj(it, st, v, ins, "the caller")
                d["ref"] -= 1
                if d["ref"] < 0:
                    raise Violation("over-release", "iteration returns a record it does not own", ins)
                if d["ref"] == 0:
                    d["freed"] = 1
            elif w.err is None and not w.ended:
                raise Violation("no-exception", "iteration stops before the end of the input without an exception", ins)
            w.err = None
            w.failed = None
            w.ended = False
            w.nested = 2
            return
        if w.phase == "ctor":
            world.ret_object(it, st, v, "the constructor", ins)
            if v == 0:
                world.balance(it, st, [], "the constructor", ins)
                raise Terminal()
            if not (isinstance(v, tuple) and v[0] in ("o", "p") and st.mem[v[1]]["tag"] == "self"):
                raise Violation("not-owned", "the constructor returns something that is not a parser", ins)
            w.self_ = v[1]
            world.balance(it, st, [v], "the constructor", ins)
        elif w.phase == "next":
            world.ret_object(it, st, v, "iteration", ins, none_ok=w.ended)
            if v != 0:
                if not (isinstance(v, tuple) and v[0] == "o" and st.mem[v[1]]["tag"] == "list"):
                    raise Violation("not-owned", "iteration returns something that is not a list", ins)
            world.balance(it, st, [("o", w.self_)] + ([v] if v != 0 else []), "iteration", ins)
            if v != 0:
                st.mem[v[1]]["ref"] -= 1
                st.mem[v[1]]["freed"] = 1
        elif w.phase == "drop":
            if not st.mem[w.self_].get("freed"):
                raise Violation("leak", "dropping a parser does not release its memory", ins)
            w.self_ = None
            world.balance(it, st, [], "the destructor", ins)
            raise Terminal()
        else:
            world.balance(it, st, [("o", w.self_)], w.phase, ins)
        w.err = None
        w.failed = None
        w.ended = False
        w.nested = 0
        w.phase = "idle"
        me = ("o", w.self_)
        # between calls the settings and the automaton state may be anything
        d = st.mem[w.self_]
        for k in list(d):
            if isinstance(k, int) and type(d[k]) is int and (d["tag"], k) in it.cell32:
                d[k] = ("top", "int")

        def go(phase, f, args):
            def fn(s):
                s.w.phase = phase
                if phase == "drop":
                    s.mem[s.w.self_]["ref"] = -1
                it.start(s, f, args)
            return fn
        alts = [("next record", go("next", tp["tp_iternext"], [me])), ("the parser is dropped", go("drop", tp["tp_dealloc"], [me]))]
        if tp.get("tp_traverse"):
            alts.append(("garbage collection visits", go("traverse", tp["tp_traverse"], [me, ("f", "__visit"), 0])))
        if tp.get("tp_clear"):
            alts.append(("garbage collection clears", go("clear", tp["tp_clear"], [me])))
        raise Fork(alts)
