# -*- coding: utf-8 -*-
"""Loads the repository's Python sources into the abstract interpreter and runs
scenarios over them.  A scenario is a piece of Python (the harness) that calls
the package with symbolic arguments and nondeterministic surroundings; the
harness is interpreted abstractly together with the package, never executed."""
import ast
import os
import time

from .core import REPO, HERE, Anchor
from . import pybc
from . import pymodels as pm
from .pybc import (Machine, State, Frame, Code, K, T, NONE, TRUE, FALSE, Unsupported, Violation, Prune, PyRaise, Pushed)

PKG = "clevercsv"
EXT_MODULES = {PKG + ".cparser", PKG + ".cabstraction"}


class World:
    """the surroundings of the interpreted program; every hook may be refined"""
    merge_returns = True
    widened = None

    def __init__(self):
        self.m = None
        self.reached = {}
        self.asserts = 0
        self.assert_keys = {}
        self.ext_seen = {}
        self.max_faults = 0
        self.set_hook = None
        self.outcomes = {}

    # ---- decisions
    def decide(self, m, st, t):
        return None

    def order_axioms(self, m, st, nodes):
        return ()

    def learned(self, m, st, t, val):
        pass

    def term_type(self, m, st, v):
        return None

    def roots(self, st):
        return (REGISTRY,)

    def mon_key(self, st):
        return st.mon if st.mon is not None else NONE

    # ---- calls
    def replace(self, m, st, f):
        p = st.get(REGISTRY).get("patches")
        if p:
            c = st.get(f)["code"]
            return p.get(c.module + ":" + c.qualname)
        return None

    def intercept(self, m, st, f, args, kw):
        return None

    def enter(self, m, st, f, code, loc):
        pass

    def leave(self, m, st, fr, v, exc):
        pass

    def finished(self, m, st, val, exc):
        if exc is None:
            self.outcomes["returned"] = self.outcomes.get("returned", 0) + 1
        else:
            n = m.exc_names(st, st.get(exc)["cls"])[0]
            self.outcomes["raised"] = self.outcomes.get("raised", 0) + 1
            raise Violation("uncaught", "the scenario ends with an exception it does not expect: %s %s" % (
                n if isinstance(n, str) else st.get(n)["name"], " ".join(pm.show(a) for a in st.get(exc)["args"])))

    def new_generator(self, m, st, g, fr):
        pass

    def on_global_write(self, m, st, fr, name, v):
        pass

    def on_mutate(self, m, st, o, what, vals):
        pass

    # ---- unknown things
    def ext_call(self, m, st, name, args, kw):
        self.ext_seen[name] = self.ext_seen.get(name, 0) + 1
        n = name[9:] if name.startswith("builtins.") else name
        if n.startswith(("__vp_", "vp__")):
            f = getattr(self, "vp_" + n[5 if n[0] == "_" else 4:], None)
            if f is None:
                raise Unsupported("harness function " + n)
            return f(m, st, args, kw)
        stubs = st.get(REGISTRY).get("stubs", {})
        s = stubs.get(n)
        if s is None and n.startswith("_csv."):
            s = stubs.get(n[1:])
        if s is not None:
            return m.call(st, s, args, kw)
        return None

    def ext_default(self, m, st, name, args, kw):
        self.unknown_call(m, st, ("ext", name), args, kw)
        return st.fresh(("result of " + name,), None)

    def pure_call(self, m, st, name, args, kw):
        pass

    def unknown_call(self, m, st, f, args, kw):
        self.may_fail(m, st, "call of %s" % pm.show(f))

    def may_fail(self, m, st, what):
        if self.max_faults:
            n = st.mon[1] if st.mon else 0
            if n < self.max_faults:
                if m.choose(st, what + " fails", [False, True]):
                    st.mon = ("faults", n + 1)
                    raise PyRaise(self.unknown_exc(m, st))

    def unknown_exc(self, m, st, base="Exception"):
        e = m.new_exc(st, base)
        st.upd(e, unknown=True)
        return e

    def method(self, m, st, recv, name, args, kw):
        self.unknown_call(m, st, ("ebm", recv, name), args, kw)
        return st.fresh(("result of %s.%s" % (pm.show(recv)[:40], name),), None)

    def same_is_equal(self, m, st, v):
        return True

    def nonempty(self, m, st, t):
        return False

    def spread_limit(self, m, st, t):
        return None

    set_orders = False

    def set_order(self, m, st, v, segs):
        return segs

    def order_segs(self, m, st, x, segs):
        return segs

    def store_subscr(self, m, st, o, k, v):
        return False

    def set_attr(self, m, st, o, name, v):
        return False

    def mapping_value(self, m, st, t, k):
        return T("item", t, pm.freeze(m, st, k))

    def cached_call(self, m, st, f, o, args, kw):
        return m.call(st, o["func"], list(args), kw)

    def _none(self, *a):
        return None

    # functions the harness may call -----------------------------------------
    def vp_sym(self, m, st, args, kw):
        return T("arg", args[0][2], args[1][2] if len(args) > 1 else None)

    def vp_new(self, m, st, args, kw):
        return st.fresh((args[0][2],), args[1][2] if len(args) > 1 else None)

    def vp_choose(self, m, st, args, kw):
        return K(m.choose(st, args[0][2], list(range(args[1][2]))))

    def vp_pick(self, m, st, args, kw):
        return args[1 + m.choose(st, args[0][2], list(range(len(args) - 1)))]

    def vp_assert(self, m, st, args, kw):
        self.asserts += 1
        key = args[1][2]
        self.assert_keys[key] = self.assert_keys.get(key, 0) + 1
        if not m.truth(st, args[0]):
            raise Violation(key, args[2][2] + "".join("; " + pm.show(m.resolve(st, a))[:300] for a in args[3:]))
        return NONE

    def vp_fail(self, m, st, args, kw):
        raise Violation(args[0][2], args[1][2] + "".join("; " + pm.show(m.resolve(st, a))[:300] for a in args[2:]))

    def vp_assume(self, m, st, args, kw):
        if not m.truth(st, args[0]):
            raise Prune()
        return NONE

    def vp_same(self, m, st, args, kw):
        """equal on this path for certain"""
        return K(self.same(m, st, args[0], args[1]))

    def same(self, m, st, a, b):
        a, b = m.resolve(st, a), m.resolve(st, b)
        if a == b:
            return True
        ia, ib = pm.simple_items(m, st, a), pm.simple_items(m, st, b)
        if ia is not None and ib is not None:
            return len(ia) == len(ib) and all(self.same(m, st, x, y) for x, y in zip(ia, ib))
        if a[0] == "r" and b[0] == "r" and st.get(a)["kind"] == "dict" and st.get(b)["kind"] == "dict":
            sa, sb = st.get(a)["segs"], st.get(b)["segs"]
            return len(sa) == len(sb) and all(x[0] == y[0] == "i" and self.same(m, st, x[1], y[1]) and self.same(m, st, x[2], y[2])
                                             for x, y in zip(sa, sb))
        if a[0] == "r" and b[0] == "r" and (st.get(a)["kind"] in ("inst",) or st.get(b)["kind"] in ("inst",)):
            return False
        r = pm.equal(m, st, a, b)
        if isinstance(r, bool):
            return r
        if r[0] == "k":
            return bool(r[2])
        return m.decide(st, r) is True

    def vp_show(self, m, st, args, kw):
        return K(pm.show(m.resolve(st, args[0])))

    def vp_is_const(self, m, st, args, kw):
        return K(m.resolve(st, args[0])[0] == "k")

    def vp_reach(self, m, st, args, kw):
        t = args[0][2]
        self.reached[t] = self.reached.get(t, 0) + 1
        return NONE

    def vp_fault(self, m, st, args, kw):
        """a possible failure of the surroundings"""
        self.may_fail(m, st, args[0][2])
        return NONE

    def vp_faults(self, m, st, args, kw):
        self.max_faults = args[0][2]
        return NONE

    def vp_nfaults(self, m, st, args, kw):
        return K(st.mon[1] if st.mon else 0)

    def vp_unknown_exception(self, m, st, args, kw):
        return self.unknown_exc(m, st, args[0][2] if args else "Exception")

    def vp_stub(self, m, st, args, kw):
        st.upd(REGISTRY, stubs=dict(st.get(REGISTRY).get("stubs", {}), **{args[0][2]: args[1]}))
        return NONE

    def vp_patch(self, m, st, args, kw):
        mod, q = args[0][2].split(":")
        if m.prog.find_function(mod, q) is None:
            raise Anchor("%s.%s is gone" % (mod, q))
        st.upd(REGISTRY, patches=dict(st.get(REGISTRY).get("patches", {}), **{args[0][2]: args[1]}))
        return NONE

    def vp_exc_is(self, m, st, args, kw):
        e = args[0]
        want = args[1]
        if want[0] == "k":
            want = ("ext", want[2] if "." in want[2] else "builtins." + want[2])
        names = m.exc_names(st, st.get(e)["cls"])
        w = want if want[0] == "r" else m.ext_bases(want[1])[0]
        return K(w in names)

    def vp_exc_args(self, m, st, args, kw):
        return ("tup", tuple(st.get(args[0])["args"]))

    def vp_exc_unknown(self, m, st, args, kw):
        return K(bool(st.get(args[0]).get("unknown")))

    def vp_note(self, m, st, args, kw):
        st.trace = (st.trace, " ".join(pm.show(m.resolve(st, a)) if a[0] != "k" or a[1] != "str" else a[2] for a in args)[:2000])
        return NONE

    def vp_total_ordering(self, m, st, args, kw):
        c = args[0]
        o = st.get(c)
        a = dict(o["attrs"])
        pre = m.prog.prelude_names(st)
        if "__lt__" in a:
            for n, p in (("__le__", "_vp_to_le"), ("__gt__", "_vp_to_gt"), ("__ge__", "_vp_to_ge")):
                if n not in a:
                    a[n] = pre[p]
        else:
            raise Unsupported("total_ordering without __lt__")
        st.upd(c, attrs=a)
        return c

    def vp_int(self, m, st, args, kw):
        return st.fresh((args[0][2],), "int")

    def vp_length(self, m, st, args, kw):
        """a sequence symbol's length is at least / at most what is given"""
        return pm.length(m, st, args[0])

    def vp_typeof(self, m, st, args, kw):
        t = m.typ(st, m.resolve(st, args[0]))
        return K(t if isinstance(t, str) else "?")

    def vp_op(self, m, st, args, kw):
        """operator and operands of an opaque value"""
        v = m.resolve(st, args[0])
        if v[0] == "t" and v[1] not in ("#", "arg"):
            return ("tup", (K(v[1]),) + tuple(x if isinstance(x, tuple) and x and x[0] in ("k", "t", "tup", "r", "ext", "F") else K(str(x)) for x in v[2:]))
        if v[0] == "t":
            return ("tup", (K(v[1]), K(pm.show(v))))
        return NONE

    def vp_mentions(self, m, st, args, kw):
        """whether a value is built from a symbol"""
        x = m.resolve(st, args[1])
        v = pm.freeze(m, st, args[0])
        return K(pybc.contains(v, lambda t: t == x))

    def vp_freeze(self, m, st, args, kw):
        return pm.freeze(m, st, args[0])

    def vp_setattr(self, m, st, args, kw):
        m.set_attr_raw(st, args[0], args[1][2], args[2])
        return NONE

    def vp_rebase(self, m, st, args, kw):
        """replaces an external base class by a modelled one"""
        ext, cls = ("ext", args[0][2]), args[1]
        new = tuple(m.mro(st, cls))
        n = 0
        for oid in list(set(st.base) | set(st.heap)):
            o = st.get(("r", oid))
            if o.get("kind") == "class" and ext in o["mro"]:
                rest = tuple(c for c in o["mro"] if c not in new and c != ext)
                i = o["mro"].index(ext)
                st.upd(("r", oid), bases=tuple(cls if b == ext else b for b in o["bases"]),
                       mro=tuple(c for c in o["mro"][:i] if c not in new) + new[:-1] + tuple(c for c in o["mro"][i + 1:] if c not in new) + new[-1:])
                n += 1
        if not n:
            raise Anchor("no class of the package derives from %s" % ext[1])
        return NONE

    def vp_object(self, m, st, args, kw):
        """an object of an external class"""
        return st.new("xobj", cls=("ext", args[0][2]), attrs={n: v for n, v in kw.items()})


for _n in ("isinst obj_segments spread set_iterated next_of iter_of item_of inst_equal inst_compare equal length unpack subscr binary "
           "less is_same contains truth spread_truth get_attr has_attr ext_class_attr super_ext super_call opaque_attr xattr dynamic_attr "
           "dynamic_setattr on_ext_write on_class instantiate ext_init bind_star call_opaque call_object cache_cleared call_method str_method "
           "printed warned collect zip_star sorted minmax freeze close_iter next_of_known term_bounds").split():
    if not hasattr(World, _n):
        setattr(World, _n, World._none)


class Program:
    def __init__(self):
        self.modules = {}
        self.codes = {}
        self.files = {}
        self.failed = {}
        self.names = {}
        self.base = {}
        self.nid = 0
        root = os.path.join(REPO, PKG)
        if not os.path.isdir(root):
            raise Anchor("package directory %s is gone" % root)
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            for f in sorted(fs):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(d, f), REPO)
                    mod = rel[:-3].replace(os.sep, ".")
                    pkg = mod.endswith(".__init__")
                    if pkg:
                        mod = mod[:-9]
                    self.files[mod] = (os.path.join(d, f), pkg, rel)
        self.sources = {}
        self.load()

    # ---- used by the machine
    def code(self, co, module):
        c = self.codes.get(id(co))
        if c is None:
            c = self.codes[id(co)] = Code(co, module)
            c.keep = co
        return c

    def relpath(self, module):
        if module in self.files:
            return self.files[module][2]
        return module

    def prelude_names(self, st):
        return self.names

    def source(self, mod):
        if mod not in self.sources:
            with open(self.files[mod][0], encoding="utf-8") as f:
                self.sources[mod] = f.read()
        return self.sources[mod]

    def start_module(self, st, name, src, fname, pkg=False, ret=None):
        co = compile(src, fname, "exec", dont_inherit=True)
        ref = st.new("module", name=name, attrs={"__name__": K(name), "__package__": K(name if pkg else name.rpartition(".")[0]),
                                                  "__doc__": NONE, "__file__": K(fname)}, loaded=False)
        self.register(st, name, ref)
        fr = Frame(self.code(co, name), ref, ret=ret or ("module", ref, None))
        parent = name.rpartition(".")[0]
        p = self.mod(st, parent)
        if p is not None:
            a = dict(st.get(p)["attrs"])
            a[name.rpartition(".")[2]] = ref
            st.upd(p, attrs=a)
        return ref, fr

    def mod(self, st, name):
        return st.get(REGISTRY)["attrs"].get(name)

    def register(self, st, name, ref):
        st.upd(REGISTRY, attrs=dict(st.get(REGISTRY)["attrs"], **{name: ref}))

    def import_module(self, m, st, name, ret=None):
        if self.mod(st, name) is not None:
            return self.mod(st, name)
        if name in EXT_MODULES:
            return ("ext", name)
        if name not in self.files:
            return None
        ref, fr = self.start_module(st, name, self.source(name), self.files[name][0], self.files[name][1])
        st.own_top()
        st.frames.append(fr)
        raise Pushed()

    def import_name(self, m, st, fr, name, level, fromlist):
        if level:
            g = st.get(fr.glob)["attrs"]
            base = g["__package__"][2].split(".")
            base = base[:len(base) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        top = name.split(".")[0]
        m.w.on_import(m, st, fr, name, m.line_of(fr))
        if top != PKG:
            r = m.w.import_ext(m, st, name, fromlist)
            if r is not None:
                fr.stack.append(r)
                return
            fr.stack.append(("ext", name if fromlist != NONE else top))
            return
        parts = name.split(".")
        for i in range(1, len(parts) + 1):
            n = ".".join(parts[:i])
            if self.mod(st, n) is not None or n in EXT_MODULES:
                continue
            if n not in self.files:
                m.throw(st, "ModuleNotFoundError", "No module named '%s'" % n)
            ref, nf = self.start_module(st, n, self.source(n), self.files[n][0], self.files[n][1], ret=("rerun",))
            fr.stack.append(K(level) if False else K(0))
            fr.stack.append(fromlist)
            if level:
                fr.stack[-2] = K(level)
            st.frames.append(nf)
            raise Pushed()
        if name in EXT_MODULES:
            fr.stack.append(("ext", name))
        elif fromlist == NONE:
            fr.stack.append(self.mod(st, top))
        else:
            fr.stack.append(self.mod(st, name))

    # ---- loading
    def load(self):
        w = LoaderWorld()
        m = Machine(self, w)
        w.m = m
        m.prog = self
        st = State({})
        st.new("registry", attrs={})
        with open(os.path.join(HERE, "vp", "prelude.py.txt"), encoding="utf-8") as f:
            src = f.read()
        st = self.run_module(m, st, "vp_prelude", src, "vp_prelude")
        a = st.get(self.mod(st, "vp_prelude"))["attrs"]
        self.names = {n: v for n, v in a.items() if n.startswith("_vp_")}
        order = [PKG] + sorted(x for x in self.files if x != PKG)
        for mod in order:
            if self.mod(st, mod) is not None or mod in EXT_MODULES:
                continue
            try:
                st = self.run_module(m, st, mod, self.source(mod), self.files[mod][0], self.files[mod][1])
            except SyntaxError as e:
                raise Anchor("%s does not compile: %s" % (mod, e))
        self.modules = dict(st.get(REGISTRY)["attrs"])
        self.base = st.heap
        self.nid = st.nid
        self.load_lines = set(m.lines)

    def run_module(self, m, st, name, src, fname, pkg=False):
        ref, fr = self.start_module(st, name, src, fname, pkg)
        st.frames = [fr]
        st.result = None
        w = m.w
        w.finals = []
        work = [st]
        n = 0
        while work:
            m.path(work.pop(), work)
            n += 1
            if n > 500:
                raise Unsupported("the body of module %s has too many undecided branches: %s" % (name, work and work[0].trace and work[0].trace[1]))
        if not w.finals:
            raise Unsupported("module %s did not finish" % name)
        if len(w.finals) > 1:
            w.finals.sort(key=lambda f: -self.complete(m, f[0], name))
        s, exc = w.finals[0]
        if exc is not None:
            raise Anchor("importing %s raises %s %s" % (name, m.exc_names(s, s.get(exc)["cls"])[:1], [pm.show(x) for x in s.get(exc)["args"]]))
        s.frames = []
        return s

    def complete(self, m, st, name):
        """turns items of comprehensions over every character into predicates"""
        n = 0
        for oid, o in list(st.heap.items()):
            if o.get("segs") and any(s[0] == "i" and pybc.contains(s[1], is_range_item) for s in o["segs"]):
                out = []
                for s in o["segs"]:
                    if s[0] == "i" and pybc.contains(s[1], is_range_item):
                        out.append(("v", frozenset([(tuple(m.generic(x) for x in s[1:]), m.item_facts(st, s[1:]))]), True))
                        n += 1
                    else:
                        out.append(s)
                st.heap[oid] = dict(o, segs=tuple(out))
        return n

    tables = None

    def protect_tables(self):
        """marks the tables of the package's modules and classes and the default arguments of its functions"""
        if self.tables is not None:
            return self.tables
        self.tables = set()
        st = None
        seen = set()

        def table(v, why, empty):
            if isinstance(v, tuple) and len(v) == 2 and v[0] == "r" and v[1] in self.base:
                o = self.base[v[1]]
                if o["kind"] in ("list", "dict", "set") and not o.get("ns") and (o.get("segs") or empty) and not o.get("frozen"):
                    self.tables.add(why)
                    pybc.protect(st, v, why + " is modified", self.base)
            elif isinstance(v, tuple):
                for x in v:
                    if isinstance(x, tuple):
                        table(x, why, empty)

        def space(where, attrs):
            for n, v in attrs.items():
                table(v, "%s.%s" % (where, n), False)
                if not (isinstance(v, tuple) and len(v) == 2 and v[0] == "r") or v[1] in seen or v[1] not in self.base:
                    continue
                seen.add(v[1])
                o = self.base[v[1]]
                if o["kind"] == "func" and o["code"].module.startswith("clevercsv"):
                    for d in (o.get("defaults"), o.get("kwdefaults")):
                        for x in (d.values() if isinstance(d, dict) else d or ()):
                            table(x, "a default argument of %s.%s" % (o["code"].module, o["code"].qualname), True)
                elif o["kind"] == "class" and str(o.get("module", "")).startswith("clevercsv"):
                    space("%s.%s" % (o["module"], o["name"]), o["attrs"])
                    self.base[v[1]] = dict(self.base[v[1]], frozen="the class %s is modified" % o["name"])
                elif o["kind"] in ("property", "classmethod", "staticmethod", "cached"):
                    space(where, {n: x for n, x in o.items() if isinstance(x, tuple)})
        for mod, ref in sorted(self.modules.items()):
            if mod.startswith("clevercsv") and ref[1] in self.base:
                space(mod, self.base[ref[1]]["attrs"])
        return self.tables

    def find_function(self, mod, qual):
        ref = self.modules.get(mod)
        if ref is None:
            return None
        o = self.base[ref[1]]
        cur = None
        for p in qual.split("."):
            a = o["attrs"]
            if p not in a:
                return None
            cur = a[p]
            if cur[0] != "r":
                return cur
            o = self.base[cur[1]]
            if "attrs" not in o:
                o = dict(o, attrs={})
        return cur


def is_range_item(v):
    return v[0] == "t" and v[1] == "#" and isinstance(v[3], tuple) and v[3] and v[3][0] == "rangeitem"


class LoaderWorld(World):
    merge_returns = False

    def import_ext(self, m, st, name, fromlist):
        return None

    def finished(self, m, st, val, exc):
        self.finals.append((st, exc))

    def spread_limit(self, m, st, t):
        return 1 if t[1] == "range" or (t[1] == "map" and t[3][1] == "range") else None

    def nonempty(self, m, st, t):
        return self.spread_limit(m, st, t) == 1

    def unknown_call(self, m, st, f, args, kw):
        pass


def _import_ext(self, m, st, name, fromlist):
    return None


def _on_import(self, m, st, fr, name, line):
    pass


World.on_import = _on_import


World.import_ext = _import_ext
_PROG = None
REGISTRY = ("r", 1)


def program():
    global _PROG
    if _PROG is None:
        _PROG = Program()
    return _PROG


class Result:
    def __init__(self, name, m, w, secs):
        self.name, self.m, self.w, self.secs = name, m, w, secs


def scenario(name, src, world=None, deadline=600, max_list=None, max_states=None, max_counter=None, max_steps=None, protect=False):
    """runs one scenario; returns Result with m.violations"""
    prog = program()
    w = world or World()
    m = Machine(prog, w)
    if protect:
        m.protecting = True
        m.crossings = set()
        w.tables = prog.protect_tables()
    if max_list:
        m.MAX_LIST = max_list
    if max_counter:
        m.MAX_COUNTER = max_counter
    if max_states:
        m.MAX_STATES = max_states
    if max_steps:
        m.MAX_STEPS = max_steps
    t0 = time.time()
    m.deadline = t0 + deadline
    st = State(prog.base)
    st.nid = prog.nid
    ref, fr = prog.start_module(st, "vp_harness", src.replace("__vp_", "vp__"), "vp_harness")
    st.frames = [fr]
    m.run(st)
    return Result(name, m, w, time.time() - t0)
