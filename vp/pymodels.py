# -*- coding: utf-8 -*-
"""Meaning of the operations of the language and of the builtins, for pybc."""
import builtins as _bi
import os
from .pybc import (K, T, NONE, TRUE, FALSE, NULL, Unsupported, Violation, Prune, PyRaise, Pushed, BUILTIN_EXC,
                   is_k, kval, symbols, contains as has_sub)

BI = "builtins."
STR_METHODS = {n: "str" for n in "strip lstrip rstrip lower upper casefold replace format join title capitalize swapcase "
               "expandtabs center ljust rjust zfill translate removeprefix removesuffix format_map".split()}
STR_METHODS.update({n: "bool" for n in "startswith endswith isdigit isalpha isalnum isspace isupper islower isnumeric isdecimal "
                    "isidentifier isprintable istitle isascii".split()})
STR_METHODS.update({n: "int" for n in "count find index rfind rindex".split()})
STR_METHODS.update({n: "list" for n in "split rsplit splitlines".split()})
STR_METHODS.update({"partition": "tuple", "rpartition": "tuple", "encode": "bytes"})
SEQ_ITEM = {"str": "str", "bytes": "int"}
TYPE_BASES = {"bool": ("bool", "int", "object"), "int": ("int", "object"), "float": ("float", "object"),
              "str": ("str", "object"), "list": ("list", "object"), "tuple": ("tuple", "object"), "dict": ("dict", "object"),
              "set": ("set", "object"), "frozenset": ("frozenset", "object"), "NoneType": ("NoneType", "object"),
              "bytes": ("bytes", "object"), "complex": ("complex", "object"),
              "OrderedDict": ("OrderedDict", "dict", "object"), "Counter": ("Counter", "dict", "object"),
              "defaultdict": ("defaultdict", "dict", "object")}
KIND_TYPE = {"list": "list", "dict": "dict", "set": "set", "frozenset": "frozenset", "tuple": "tuple", "func": "function",
             "gen": "generator", "module": "module", "cell": "cell"}


# ------------------------------------------------------------------ printing
def show(v, n=0):
    if not isinstance(v, tuple) or not v:
        return str(v)
    h = v[0]
    if h == "k":
        return repr(v[2])
    if h == "tup":
        return "(%s)" % ", ".join(show(x) for x in v[1])
    if h == "ext":
        return v[1].replace("builtins.", "")
    if h == "r":
        return "object"
    if h == "t":
        op = v[1]
        if op == "#":
            return "<%s>" % " ".join(str(x) for x in v[3] if isinstance(x, (str, int)))
        if op == "arg":
            return v[2]
        if op == "not":
            return "not " + show(v[2])
        if op in ("eq", "lt"):
            return "%s %s %s" % (show(v[2]), {"eq": "==", "lt": "<"}[op], show(v[3]))
        if op == "isnone":
            return show(v[2]) + " is None"
        if op == "in":
            return "%s in %s" % (show(v[2]), show(v[3]))
        if n > 4:
            return op + "(...)"
        return "%s(%s)" % (op, ", ".join(show(x, n + 1) for x in v[2:]))
    if h == "bm":
        return "method"
    return str(h)


# --------------------------------------------------------------------- types
TERM_T = {"len": "int", "eq": "bool", "lt": "bool", "in": "bool", "isnone": "bool", "truth": "bool", "not": "bool", "isinst": "bool",
          "concat": "str", "fmt": "str", "strof": "str", "repr": "str", "hash": "int", "bytes": "bytes", "ord": "int", "chr": "str",
          "slice": None, "str": "str", "is": "bool", "and": "bool", "or": "bool", "range": "range", "intof": "int", "floatof": "float"}


def term_type(m, st, v):
    op = v[1]
    if op in PURE:
        return PURE[op][1]
    if op in TERM_T:
        if op == "slice":
            return m.typ(st, v[2])
        return TERM_T[op]
    if op.startswith("str."):
        return STR_METHODS.get(op[4:])
    if op in ("+", "-", "*", "//", "%", "neg", "abs", "**"):
        ts = {m.typ(st, x) for x in v[2:]}
        if ts <= {"int", "bool"}:
            return "int"
        if ts <= {"int", "bool", "float"}:
            return "float"
        if op == "+" and len(ts) == 1:
            return ts.pop()
        return None
    if op == "/":
        return "float"
    if op in ("min", "max"):
        ts = {m.typ(st, x) for x in v[2:]}
        return ts.pop() if len(ts) == 1 else ("float" if ts <= {"int", "float"} else None)
    if op == "item" and (m.typ(st, v[2]) == "str" or v[2][0] == "t" and v[2][1] in ("str.split", "str.rsplit", "str.splitlines", "str.partition", "str.rpartition")):
        return "str"
    if op in ("&", "|", "^"):
        return m.typ(st, v[2])
    return m.w.term_type(m, st, v)


def never_equal(a, b):
    num = ("int", "bool", "float", "complex")
    if a in num and b in num:
        return False
    if not isinstance(a, str) or not isinstance(b, str):
        return False
    for grp in (("dict", "OrderedDict", "Counter", "defaultdict"), ("set", "frozenset")):
        if a in grp and b in grp:
            return False
    known = set(TYPE_BASES)
    return a in known and b in known


def cls_name(m, st, c):
    if c[0] == "ext":
        return c[1][9:] if c[1].startswith(BI) else c[1]
    if c[0] == "r":
        return st.get(c)["name"]
    return show(c)


def type_of(m, st, v):
    """the class of a value as a value"""
    h = v[0]
    if h == "k":
        return ("ext", BI + v[1])
    if h == "tup":
        return ("ext", "builtins.tuple")
    if h == "ext":
        return ("ext", "builtins.type") if is_ext_class(v[1]) else ("ext", "builtins.builtin_function_or_method")
    if h in ("bm", "ebm"):
        return ("ext", "types.MethodType")
    if h == "r":
        o = st.get(v)
        k = o["kind"]
        if k in ("inst", "exc", "xobj"):
            return o["cls"]
        if k == "class":
            return ("ext", "builtins.type")
        if k in ("iter", "zip", "mapit", "enum"):
            return ("ext", "builtins.iterator")
        if k == "dict" and o.get("cls"):
            return ("ext", o["cls"])
        return ("ext", BI + KIND_TYPE.get(k, k))
    t = m.typ(st, v)
    if t is not None and isinstance(t, str) and t in TYPE_BASES:
        return ("ext", BI + t)
    if t is not None and isinstance(t, tuple):
        return t
    return None


EXT_CLASSES = {"csv.Dialect", "_csv.Dialect", "csv.excel", "csv.excel_tab", "csv.unix_dialect", "enum.Enum", "typing.NamedTuple",
               "collections.OrderedDict", "collections.Counter", "collections.defaultdict", "wilderness.Command",
               "wilderness.Application", "io.StringIO", "collections.abc.Collection", "collections.abc.Mapping",
               "collections.abc.Iterable", "collections.abc.Iterator", "collections.abc.Sequence", "typing.Iterator", "typing.Generic"}


def is_ext_class(name):
    if name.startswith(BI):
        return isinstance(getattr(_bi, name[9:], None), type)
    from .pybc import EXT_EXC
    return name in EXT_CLASSES or name in EXT_EXC


EXT_PARENT = {"csv.excel": "csv.Dialect", "csv.excel_tab": "csv.excel", "csv.unix_dialect": "csv.Dialect",
              "collections.OrderedDict": "builtins.dict", "collections.Counter": "builtins.dict", "collections.defaultdict": "builtins.dict",
              "builtins.OrderedDict": "builtins.dict", "builtins.Counter": "builtins.dict", "builtins.defaultdict": "builtins.dict"}


def ext_mro(m, name):
    out = [name]
    while name in EXT_PARENT:
        name = EXT_PARENT[name]
        out.append(name)
    if name.startswith(BI):
        c = getattr(_bi, name[9:], None)
        if isinstance(c, type):
            out += [BI + x.__name__ for x in c.__mro__[1:]]
    else:
        out += [BI + x if not x.startswith(BI) and hasattr(_bi, x) else x for x in m.ext_bases(name)[1:]]
    return out


def subclass(m, st, c, want):
    """is class value c a subclass of want (both known)?"""
    for k in m.mro(st, c):
        if k == want:
            return True
        if k[0] == "ext" and want[0] == "ext":
            w = want[1]
            if w in ext_mro(m, k[1]) or alias_cls(w) in [alias_cls(x) for x in ext_mro(m, k[1])]:
                return True
    if want == ("ext", "builtins.object"):
        return True
    return False


def alias_cls(n):
    return {"_csv.Error": "csv.Error", "collections.OrderedDict": "builtins.OrderedDict"}.get(n, n)


ABC = {"Iterable": {"list", "tuple", "dict", "set", "frozenset", "str", "bytes", "generator", "iterator", "range"},
       "Iterator": {"generator", "iterator"}, "Sequence": {"list", "tuple", "str", "bytes", "range"},
       "Mapping": {"dict", "OrderedDict", "Counter"}, "Collection": {"list", "tuple", "dict", "set", "frozenset", "str", "bytes", "range"},
       "Sized": {"list", "tuple", "dict", "set", "frozenset", "str", "bytes", "range"}, "Set": {"set", "frozenset"},
       "Callable": {"function", "builtin_function_or_method"}, "Hashable": {"str", "int", "float", "bool", "tuple", "NoneType"}}


def isinstance_(m, st, v, c):
    """True/False (may fork)"""
    if c[0] == "tup":
        return any(isinstance_(m, st, v, x) for x in c[1])
    r = m.w.isinst(m, st, v, c)
    if r is not None:
        return r
    if v[0] == "k" and v[1] == "bool" and c == ("ext", "builtins.int"):
        return True
    t = type_of(m, st, v)
    if t is None:
        rv = m.resolve(st, v)
        if rv != v:
            return isinstance_(m, st, rv, c)
        known = st.facts.get(("type", v))
        if known is not None:
            return subclass(m, st, known, c)
        t2 = T("isinst", v, c)
        d = m.decide(st, t2)
        if d is None:
            # facts about other classes
            for f, val in st.facts.items():
                if val is True and f[0] == "t" and f[1] == "isinst" and f[2] == v and f[3][0] in ("ext", "r"):
                    if subclass(m, st, f[3], c):
                        d = True
                    elif f[3][0] == "ext" and c[0] == "ext" and f[3][1].startswith(BI) and c[1].startswith(BI) and not subclass(m, st, c, f[3]):
                        d = False
            if d is None:
                d = m.ask(st, t2)
        return d
    if t[0] == "ext" and c[0] == "ext":
        base = c[1].split(".")[-1]
        if c[1].startswith("collections.abc.") or c[1].startswith("typing."):
            if base in ABC:
                tn = t[1].split(".")[-1]
                if tn in ABC[base]:
                    return True
                return False
    if c[0] == "ext" and (c[1].startswith("collections.abc.") or c[1].startswith("typing.")) and t[0] == "r":
        base = c[1].split(".")[-1]
        need = {"Iterable": "__iter__", "Iterator": "__next__", "Sized": "__len__", "Callable": "__call__", "Hashable": "__hash__"}.get(base)
        if need:
            return m.lookup_class_attr(st, t, need) is not None
    return subclass(m, st, t, c)


# --------------------------------------------------------------- containers
def is_seq_obj(st, v):
    return v[0] == "r" and st.get(v)["kind"] in ("list", "tuple", "set", "frozenset", "dict", "deque")


def segments(m, st, v):
    """segments of the values iteration over v gives (v is not an iterator with code of its own)"""
    if v[0] == "tup":
        return tuple(("i", x) for x in v[1])
    if v[0] == "k":
        if isinstance(v[2], (str, bytes)):
            return tuple(("i", K(x)) for x in v[2])
        m.throw(st, "TypeError", "'%s' object is not iterable" % v[1])
    if v[0] == "r":
        o = st.get(v)
        k = o["kind"]
        if k in ("set", "frozenset") and m.w.set_orders and not o.get("ordered") and len(o["segs"]) > 1:
            return m.w.set_order(m, st, v, o["segs"])
        if k in ("list", "tuple", "set", "frozenset", "deque"):
            return o["segs"]
        if k == "dict":
            return keys_segs(o["segs"])
        if k == "iter":
            s = o["segs"]
            st.upd(v, segs=())
            return s
        if k == "class":
            mem = o.get("members")
            if mem is not None:
                return tuple(("i", x) for x in mem)
        r = m.w.obj_segments(m, st, v)
        if r is not None:
            return r
        raise Unsupported("items of %s" % k)
    if v[0] == "t":
        return spread(m, st, v)
    raise Unsupported("items of %r" % (v[:2],))


def spread(m, st, t):
    t = m.resolve(st, t)
    if t[0] != "t":
        return segments(m, st, t)
    r = m.w.spread(m, st, t)
    if r is not None:
        return r
    if t[1] == "range":
        return (("s", t),)
    ty = m.typ(st, t)
    if ty in ("int", "float", "bool", "NoneType"):
        m.throw(st, "TypeError", "'%s' object is not iterable" % ty)
    return (("s", t),)


def keys_segs(segs):
    out = []
    for s in segs:
        if s[0] == "i":
            out.append(("i", s[1]))
        elif s[0] == "s":
            out.append(s)
        else:
            out.append(("v", frozenset((x if x[0] == "spread" else x[:1], f) for x, f in s[1])))
    return tuple(out)


def items_segs(segs, which):
    out = []
    for s in segs:
        if s[0] == "i":
            out.append(("i", ("tup", (s[1], s[2])) if which == "items" else s[2]))
        elif s[0] == "s":
            out.append(("s", T(which, s[1])))
        else:
            vs = set()
            for x, f in s[1]:
                if x[0] == "spread":
                    vs.add((("spread", T(which, x[1])), f))
                elif which == "items":
                    vs.add(((("tup", (x[0], x[1])),), f))
                else:
                    vs.add((x[1:2], f))
            out.append(("v", frozenset(vs)))
    return tuple(out)


def exact(segs):
    return all(s[0] == "i" for s in segs)


def item_of(m, st, t):
    """a generic item of the opaque iterable t"""
    r = m.w.item_of(m, st, t)
    if r is not None:
        return r
    ty = m.typ(st, t)
    if t[1] == "range":
        i = st.fresh(("rangeitem",) if len(t) == 3 and t[2][0] == "k" else ("index",), "int")
        if len(t) == 3:
            st.facts[T("lt", i, K(0))] = False
            st.facts[T("lt", i, t[2])] = True
        return i
    if t[1] == "map":
        # generic result of a pure external function
        if t[2] == ("ext", "builtins.chr"):
            return T("chr", item_of(m, st, t[3]))
        return T("call", t[2], item_of(m, st, t[3]))
    if t[1] == "items":
        k = st.fresh(("key", m.generic(t[2])), None)
        return ("tup", (k, st.fresh(("value", m.generic(t[2])), None)))
    if t[1] == "values":
        return st.fresh(("value", m.generic(t[2])), None)
    if t[1] in ("str.split", "str.rsplit", "str.splitlines"):
        return st.fresh(("part", m.generic(t)), "str")
    if ty == "str":
        return st.fresh(("char", m.generic(t)), "str")
    return st.fresh(("item", m.generic(t)), SEQ_ITEM.get(ty))


def get_iter(m, st, v):
    if v[0] == "r":
        o = st.get(v)
        k = o["kind"]
        if k in ("gen", "iter", "zip", "mapit", "enum"):
            return v
        if k in ("list", "tuple", "set", "frozenset", "dict", "deque"):
            return new_iter(m, st, segments(m, st, v), v)
        if k == "inst":
            f = m.lookup_class_attr(st, o["cls"], "__iter__")
            if f is not None:
                return m.call(st, ("bm", f, v), [], {})
            f = m.lookup_class_attr(st, o["cls"], "__getitem__")
            if o.get("fields"):
                return st.new("iter", segs=tuple(("i", o["attrs"][n]) for n in o["fields"]))
            r = m.w.iter_of(m, st, v)
            if r is not None:
                return r
            m.throw(st, "TypeError", "'%s' object is not iterable" % cls_name(m, st, o["cls"]))
        r = m.w.iter_of(m, st, v)
        if r is not None:
            return r
        if k == "class" and o.get("members") is not None:
            return st.new("iter", segs=segments(m, st, v))
        raise Unsupported("iteration over %s" % k)
    if v[0] == "t":
        r = m.w.iter_of(m, st, v)
        if r is not None:
            return r
        v2 = m.resolve(st, v)
        if v2 == NONE:
            m.throw(st, "TypeError", "'NoneType' object is not iterable")
    return new_iter(m, st, segments(m, st, v), v)


def new_iter(m, st, segs, src):
    st_set = src[0] == "r" and st.get(src)["kind"] in ("set", "frozenset") and len(segs) + sum(1 for s in segs if s[0] != "i") > 1
    it = st.new("iter", segs=segs)
    if st_set:
        m.w.set_iterated(m, st, src, it)
    return it


def next_of(m, st, it, r):
    """next value of an iterator; None at its end; may push a frame"""
    if it[0] == "t":
        v = m.w.next_of(m, st, it, r)
        if v is not None:
            return v if v != "END" else None
        if m.choose(st, "another item from %s" % show(it), [True, False]):
            return item_of(m, st, it)
        return None
    o = st.get(it)
    k = o["kind"]
    if k == "iter":
        segs = o["segs"]
        while segs:
            s = segs[0]
            if s[0] == "i":
                st.upd(it, segs=segs[1:])
                return s[1]
            if s[0] == "s":
                lim = m.w.spread_limit(m, st, s[1])
                n = o.get("cnt", 0)
                nonempty = n == 0 and m.w.nonempty(m, st, s[1])
                opts = [True, False]
                if nonempty:
                    opts = [True]
                elif lim is not None and n >= lim:
                    opts = [False]
                elif n == 0 and m.decide(st, T("eq", T("len", s[1]), K(0))) is True:
                    opts = [False]
                if m.choose(st, "another item from %s" % show(s[1]), opts):
                    if lim is not None:
                        st.upd(it, cnt=n + 1)
                    v = item_of(m, st, s[1])
                    return v
                segs = segs[1:]
                st.upd(it, segs=segs, cnt=0)
                continue
            vs = sorted(s[1], key=repr)
            c = m.choose(st, "item of a collection", list(range(len(vs))) + ["end"])
            if c == "end":
                segs = segs[1:]
                st.upd(it, segs=segs)
                continue
            item = m.instantiate(st, vs[c])
            if item[0] == "spread":
                return item_of(m, st, item[1])
            return item[0]
        return None
    if k == "gen":
        if o["frame"] is None:
            if o["state"] == "running":
                m.throw(st, "ValueError", "generator already executing")
            return None
        m.resume(st, it, NONE, r)
        raise Pushed()
    if k == "zip":
        vals = []
        for p in o["parts"]:
            v = next_of(m, st, p, r)
            if v is None:
                return None
            vals.append(v)
        return ("tup", tuple(vals))
    if k == "enum":
        v = next_of(m, st, o["it"], r)
        if v is None:
            return None
        n = o["n"]
        st.upd(it, n=binary(m, st, "+", n, K(1)))
        return ("tup", (n, v))
    if k == "mapit":
        v = next_of(m, st, o["it"], r)
        if v is None:
            return None
        return m.call(st, o["f"], [v], {})
    if k == "inst":
        f = m.lookup_class_attr(st, o["cls"], "__next__")
        if f is not None:
            try:
                return m.call_with_ret(st, f, [it], {}, r if r[0] in ("foriter", "sendend") else ("push",))
            except PyRaise as e:
                names = m.exc_names(st, st.get(e.exc)["cls"])
                if "StopIteration" in names and r[0] in ("foriter", "sendend"):
                    return None
                raise
    v = m.w.next_of(m, st, it, r)
    if v is None:
        m.throw(st, "TypeError", "'%s' object is not an iterator" % k)
    return v if v != "END" else None


def native_iter(m, st, v):
    """iterator object of v that next_of can advance without running code, or None"""
    if v[0] == "r":
        o = st.get(v)
        k = o["kind"]
        if k == "iter":
            return v
        if k in ("list", "tuple", "set", "frozenset", "dict", "deque"):
            return new_iter(m, st, segments(m, st, v), v)
        if k == "zip":
            return v
        if k == "enum":
            return v
        return None
    if v[0] in ("tup", "k", "t"):
        if v[0] == "t" and m.w.iter_of(m, st, v) is not None:
            return None
        return new_iter(m, st, segments(m, st, v), v)
    return None


def members(m, st, v):
    """like concrete_segs, where the order does not matter"""
    if v[0] == "r" and st.get(v)["kind"] in ("set", "frozenset"):
        return st.get(v)["segs"]
    return concrete_segs(m, st, v)


def concrete_segs(m, st, v):
    """segments if v can be walked without running code, else None; consumes iterators"""
    if v[0] == "r":
        o = st.get(v)
        k = o["kind"]
        if k in ("list", "tuple", "set", "frozenset", "dict", "iter", "deque"):
            return segments(m, st, v)
        if k == "class" and o.get("members") is not None:
            return segments(m, st, v)
        if k == "zip":
            ps = [st.get(p) for p in o["parts"]]
            if all(p["kind"] == "iter" and exact(p["segs"]) for p in ps):
                n = min((len(p["segs"]) for p in ps), default=0)
                out = tuple(("i", ("tup", tuple(p["segs"][j][1] for p in ps))) for j in range(n))
                for pr, p in zip(o["parts"], ps):
                    st.upd(pr, segs=p["segs"][n:])
                return out
            if len(ps) == 1 and ps[0]["kind"] == "iter":
                return None
        if k == "mapit":
            i = st.get(o["it"])
            if i["kind"] == "iter" and o["f"][0] == "ext" and i["segs"] and all(s[0] == "s" for s in i["segs"]):
                st.upd(o["it"], segs=())
                return tuple(("s", T("map", o["f"], s[1])) for s in i["segs"])
        return None
    if v[0] in ("tup", "t"):
        if v[0] == "t" and m.w.iter_of(m, st, v) is not None:
            return None
        return segments(m, st, v)
    if v[0] == "k":
        return segments(m, st, v)
    return None


def via_list(m, st, f, v, args, kw):
    """calls f with the items of v collected into a list first"""
    pre = m.prog.prelude_names(st)
    return m.call(st, pre["_vp_via_list"], [f, v] + list(args), kw)


def to_tuple(m, st, v):
    segs = segments(m, st, v)
    if exact(segs):
        return ("tup", tuple(s[1] for s in segs))
    return st.new("tuple", segs=segs)


def freeze(m, st, v, seen=()):
    """immutable picture of a value"""
    if not isinstance(v, tuple) or not v:
        return v
    h = v[0]
    if h == "r":
        if v[1] in seen:
            return ("cycle",)
        seen = seen + (v[1],)
        o = st.get(v)
        k = o["kind"]
        if k in ("list", "tuple", "set", "frozenset", "dict", "iter", "deque"):
            segs = o["segs"]
            if k in ("list", "tuple") and len(segs) == 1 and segs[0][0] == "s":
                return segs[0][1]
            fs = tuple(tuple(freeze(m, st, x, seen) if i else x for i, x in enumerate(s)) if s[0] != "v" else s for s in segs)
            if k == "tuple" or k == "list":
                return ("F", "seq", fs)
            return ("F", k, fs)
        if k in ("inst", "xobj", "exc"):
            r = m.w.freeze(m, st, v)
            if r is not None:
                return r
            if v[1] in st.base:
                return v
            cn = o["cls"]
            a = tuple(sorted((n, freeze(m, st, x, seen)) for n, x in o.get("attrs", {}).items()))
            if k == "exc":
                a = tuple(freeze(m, st, x, seen) for x in o["args"])
            return ("F", k, cls_name(m, st, cn), a) + ((v[1],) if k == "xobj" else ())
        if k == "func":
            return ("F", "func", o["code"].module, o["code"].qualname)
        if k == "class":
            return ("F", "class", o["name"]) if v[1] not in st.base else v
        if k in ("zip", "mapit", "enum"):
            parts = o.get("parts") or (o["it"],)
            return ("F", k, tuple(freeze(m, st, p, seen) for p in parts)) + ((freeze(m, st, o["f"], seen),) if k == "mapit" else ())
        return v
    if h == "tup":
        return ("F", "seq", tuple(("i", freeze(m, st, x, seen)) for x in v[1]))
    if h == "k" or h == "t" or h == "ext":
        return v
    if h == "bm":
        return ("F", "bm", freeze(m, st, v[1], seen), freeze(m, st, v[2], seen))
    return v


def simple_items(m, st, v):
    """exact item list of a sequence value or None"""
    if v[0] == "tup":
        return list(v[1])
    if v[0] == "r":
        o = st.get(v)
        if o["kind"] in ("list", "tuple") and exact(o["segs"]):
            return [s[1] for s in o["segs"]]
    return None


def set_add(m, st, s, x):
    o = st.get(s)
    if hashable_check(m, st, x):
        m.throw(st, "TypeError", "unhashable type")
    r = contains_val(m, st, x, o["segs"])
    if r:
        return
    st.upd(s, segs=o["segs"] + (("i", x),))


def hashable_check(m, st, x):
    return x[0] == "r" and st.get(x)["kind"] in ("list", "dict", "set", "deque")


def contains_val(m, st, x, segs):
    """membership by value in exact segments (may fork); summaries are asked"""
    segs = m.w.order_segs(m, st, x, segs)
    for s in segs:
        if s[0] == "i":
            if eq_ask(m, st, s[1], x):
                return True
    for s in segs:
        if s[0] == "i":
            continue
        if s[0] == "s":
            if m.ask(st, T("in", x, s[1])):
                return True
        elif len(s) > 2:
            if in_complete(m, st, x, s):
                return True
        else:
            if m.decide(st, T("eq", x, x)) and m.choose(st, "%s is in the collection" % show(x), [True, False]):
                return True
    return False


def in_complete(m, st, x, seg):
    """membership in a set comprehension over every character"""
    if m.typ(st, x) != "str":
        return False
    lo, hi = m.bounds(st, T("len", x)) if x[0] == "t" else (len(x[2]),) * 2
    if lo != 1 or hi != 1:
        if not m.ask(st, m.mk_eq_raw(T("len", x), K(1))):
            return False
    for item, facts in sorted(seg[1], key=repr):
        g = item[0]
        ok = True
        for f, val in sorted(facts, key=repr):
            if g[1] == "chr" and f[1] == "lt" and g[2] in (f[2], f[3]):
                if f[3] == K(0) or f[2] == K(0) or (f[3][0] == "k" and f[3][2] >= 0x110000):
                    continue
                f = subst(m, f, g[2], T("ord", x) if x[0] == "t" else K(ord(x[2])))
            if m.ask(st, subst(m, f, g, x)) != val:
                ok = False
                break
        if ok:
            return True
    return False


def subst(m, t, a, b):
    if t == a:
        return b
    if not isinstance(t, tuple) or not t or t[0] == "k":
        return t
    r = tuple(subst(m, x, a, b) if isinstance(x, tuple) else x for x in t)
    if r[0] == "t":
        if r[1] == "eq":
            if r[2][0] == "k" and r[3][0] == "k":
                return K(r[2][2] == r[3][2])
            return m.mk_eq_raw(r[2], r[3])
        if r[1] in PURE and all(x[0] == "k" for x in r[2:]):
            return fold(r[1], r[2:]) or r
    return r


def _fold_category(x):
    import unicodedata
    return unicodedata.category(x)


def _escape(x):
    import re
    return re.escape(x)


# functions of other libraries without side effects that depend on nothing but their arguments
PURE = {"unicodedata.category": (_fold_category, "str"), "codecs.decode": (None, "str"), "unicodedata.name": (None, "str"),
        "os.path.join": (None, "str"), "os.path.basename": (os.path.basename, "str"), "os.path.dirname": (None, "str"),
        "os.path.abspath": (None, "str"), "os.fspath": (None, None), "os.path.splitext": (os.path.splitext, None),
        "re.escape": (_escape, "str"), "regex.escape": (_escape, "str"), "math.log": (None, "float"), "packaging.version.Version": (None, "Version"),
        "regex.compile": (None, "Pattern"), "re.compile": (None, "Pattern"), "textwrap.dedent": (None, "str")}


def fold(name, args):
    f = PURE[name][0]
    if f is None:
        return None
    try:
        return K(f(*[a[2] for a in args]))
    except Exception:
        return None


def user_eq(m, st, v):
    """user-defined __eq__ of an instance"""
    if v[0] == "r":
        o = st.get(v)
        if o["kind"] == "inst" and not o.get("enum"):
            return m.lookup_class_attr(st, o["cls"], "__eq__")
    return None


def eq_ask(m, st, a, b):
    r = equal(m, st, a, b)
    if r is True or r is False:
        return r
    return m.ask(st, r)


def inst_eq_inline(m, st, f, a, b):
    """runs an interpreted __eq__ to its end for a membership test: uses attribute equality"""
    r = m.w.inst_equal(m, st, a, b)
    if r is not None:
        return r
    oa, ob = st.get(a), st.get(b)
    if oa["cls"] != ob.get("cls"):
        return False
    for n, x in oa["attrs"].items():
        if n not in ob["attrs"]:
            return False
        if not eq_ask(m, st, x, ob["attrs"][n]):
            return False
    return True


def mk_eq(m, st, a, b):
    a, b = m.resolve(st, a), m.resolve(st, b)
    if a == b:
        return True
    return m.mk_eq_raw(a, b)


def equal(m, st, a, b):
    """True, False or a boolean term (may fork inside containers)"""
    if a == b:
        return True
    a, b = m.resolve(st, a), m.resolve(st, b)
    if a == b:
        return True
    ha, hb = a[0], b[0]
    r = m.w.equal(m, st, a, b)
    if r is not None:
        return r
    if ha == "k" and hb == "k":
        return a[2] == b[2]
    for x, y in ((a, b), (b, a)):
        if x[0] == "r":
            o = st.get(x)
            k = o["kind"]
            if k == "inst" and o.get("enum"):
                if y[0] == "r":
                    return False
                if "str" in o["enum"] or "int" in o["enum"]:
                    return equal(m, st, o["attrs"]["value"], y)
                return False if y[0] == "k" else m.mk_eq_raw(a, b)
            if k == "inst":
                if y[0] == "r" and st.get(y)["kind"] == "inst":
                    if user_eq(m, st, x) is None:
                        if o.get("dataclass"):
                            return inst_eq_inline(m, st, None, x, y)
                        return False
                    return inst_eq_inline(m, st, None, x, y)
                if y[0] in ("k", "tup", "ext") or y[0] == "r":
                    if o.get("fields") and simple_items(m, st, y) is not None:
                        break
                    return False
                return m.mk_eq_raw(a, b)
            if k in ("func", "class", "module", "gen", "xobj", "exc", "iter", "zip", "mapit"):
                if y[0] in ("k", "tup", "ext", "r", "bm", "ebm"):
                    return False
                return m.mk_eq_raw(freeze(m, st, a), freeze(m, st, b))
    if ha == "ext" or hb == "ext":
        if ha == "ext" and hb == "ext":
            return alias_cls(a[1]) == alias_cls(b[1])
        x = b if ha == "ext" else a
        if x[0] in ("k", "tup") or x[0] == "r":
            return False
        t = m.typ(st, x)
        if t is not None:
            return False
        return m.mk_eq_raw(a, b)
    ia, ib = simple_items(m, st, a), simple_items(m, st, b)
    ta, tb = m.typ(st, a), m.typ(st, b)
    if ta == tb == "bool":
        for x, y in ((a, b), (b, a)):
            if x[0] == "t" and y[0] == "k":
                return x if y[2] else T("not", x)
        return m.truth(st, a) == m.truth(st, b)
    if ia is not None and ib is not None:
        if ta != tb and {ta, tb} == {"list", "tuple"}:
            return False
        if len(ia) != len(ib):
            return False
        for x, y in zip(ia, ib):
            if not eq_ask(m, st, x, y):
                return False
        return True
    if isinstance(ta, str) and isinstance(tb, str) and ta != tb and never_equal(ta, tb):
        return False
    if ha == "r" and hb == "r":
        oa, ob = st.get(a), st.get(b)
        if oa["kind"] == ob["kind"] and oa["kind"] in ("set", "frozenset", "dict") and exact(oa["segs"]) and exact(ob["segs"]):
            if oa["kind"] == "dict":
                if len(oa["segs"]) != len(ob["segs"]):
                    return False
                for s in oa["segs"]:
                    for s2 in ob["segs"]:
                        if eq_ask(m, st, s[1], s2[1]):
                            if not eq_ask(m, st, s[2], s2[2]):
                                return False
                            break
                    else:
                        return False
                return True
            for s in oa["segs"]:
                if not contains_val(m, st, s[1], ob["segs"]):
                    return False
            for s in ob["segs"]:
                if not contains_val(m, st, s[1], oa["segs"]):
                    return False
            return True
    fa, fb = freeze(m, st, a), freeze(m, st, b)
    if fa == fb:
        if m.w.same_is_equal(m, st, fa):
            return True
    # an opaque sequence compared with an exact one
    for x, y, it in ((fa, fb, ib), (fb, fa, ia)):
        if it is not None and x[0] == "t" and len(it) == 0:
            return m.mk_eq_raw(T("len", x), K(0))
    if fa[0] == "r":
        fa = ("t", "obj", fa)
    if fb[0] == "r":
        fb = ("t", "obj", fb)
    if fa[0] in ("F", "tup") or fb[0] in ("F", "tup"):
        fa = fa if fa[0] in ("t", "k") else T("snap", fa)
        fb = fb if fb[0] in ("t", "k") else T("snap", fb)
    return m.mk_eq_raw(fa, fb)


def bool_val(m, r):
    if r is True:
        return TRUE
    if r is False:
        return FALSE
    return r


def dict_find(m, st, segs, k, exactonly=False):
    """index of the exact entry with key k (may fork), or None"""
    ko = m.w.order_segs(m, st, k, segs)
    for s in ko:
        if s[0] == "i" and eq_ask(m, st, s[1], k):
            return segs.index(s)
    return None


def dict_set(m, st, d, k, v, quiet=False):
    if not quiet:
        m.w.on_mutate(m, st, d, "item assignment", (k, v))
    if hashable_check(m, st, k):
        m.throw(st, "TypeError", "unhashable type")
    o = st.get(d)
    segs = o["segs"]
    i = dict_find(m, st, segs, k)
    if i is not None:
        segs = segs[:i] + (("i", segs[i][1], v),) + segs[i + 1:]
    else:
        segs = segs + (("i", k, v),)
    st.upd(d, segs=segs)


def dict_get(m, st, d, k, default=None, desc="dict"):
    """value for key k; default: value, or None to raise KeyError"""
    o = st.get(d)
    segs = o["segs"]
    i = dict_find(m, st, segs, k)
    if i is not None:
        return segs[i][2]
    for s in segs:
        if s[0] == "v":
            vs = sorted((x for x in s[1]), key=repr)
            c = m.choose(st, "which entry has the key", list(range(len(vs))) + (["none"]))
            if c != "none":
                it = m.instantiate(st, vs[c])
                if it[0] == "spread":
                    return T("item", it[1], k)
                if not eq_ask(m, st, it[0], k):
                    raise Prune()
                return it[1]
        elif s[0] == "s":
            if m.ask(st, T("in", k, s[1])):
                return m.w.mapping_value(m, st, s[1], k)
    if o.get("cls") == "collections.Counter" or o.get("cls") == "builtins.Counter":
        return K(0) if default is None else default
    if o.get("factory") is not None and default is None:
        raise Unsupported("defaultdict miss")
    if default is None:
        raise PyRaise(m.new_exc(st, "KeyError", k))
    return default


def dict_update(m, st, d, v):
    if v[0] == "r" and st.get(v)["kind"] == "dict":
        for s in st.get(v)["segs"]:
            if s[0] == "i":
                dict_set(m, st, d, s[1], s[2], quiet=True)
            else:
                st.upd(d, segs=st.get(d)["segs"] + (s,))
        return
    if v[0] == "t":
        st.upd(d, segs=st.get(d)["segs"] + (("s", v),))
        return
    segs = concrete_segs(m, st, v)
    if segs is None or not exact(segs):
        raise Unsupported("dict update from %r" % (v[:2],))
    for s in segs:
        it = simple_items(m, st, s[1])
        if it is None or len(it) != 2:
            raise Unsupported("dict update from pairs")
        dict_set(m, st, d, it[0], it[1], quiet=True)


def list_extend(m, st, l, v):
    segs = concrete_segs(m, st, v)
    if segs is None:
        pre = m.prog.prelude_names(st)
        return m.call_with_ret(st, pre["_vp_extend"], [l, v], {}, ("drop",))
    st.upd(l, segs=st.get(l)["segs"] + segs)


def length(m, st, v):
    if v[0] == "tup":
        return K(len(v[1]))
    if v[0] == "k":
        try:
            return K(len(v[2]))
        except TypeError:
            m.throw(st, "TypeError", "object of type '%s' has no len()" % v[1])
    if v[0] == "r":
        o = st.get(v)
        k = o["kind"]
        if k in ("list", "tuple", "set", "frozenset", "dict", "deque"):
            segs = o["segs"]
            if exact(segs):
                return K(len(segs))
            if len(segs) == 1 and segs[0][0] == "s":
                return T("len", segs[0][1])
            n = sum(1 for s in segs if s[0] == "i")
            rest = tuple(T("len", s[1]) if s[0] == "s" else T("len", T("snap", s)) for s in segs if s[0] != "i")
            t = rest[0]
            for x in rest[1:]:
                t = T("+", t, x)
            return T("+", t, K(n)) if n else t
        if k == "inst":
            f = m.lookup_class_attr(st, o["cls"], "__len__")
            if f is not None:
                return m.call(st, ("bm", f, v), [], {})
        if k == "class" and o.get("members") is not None:
            return K(len(o["members"]))
        r = m.w.length(m, st, v)
        if r is not None:
            return r
        m.throw(st, "TypeError", "object has no len()")
    v = m.resolve(st, v)
    if v[0] != "t":
        return length(m, st, v)
    t = m.typ(st, v)
    if t in ("int", "float", "bool", "NoneType", "generator"):
        m.throw(st, "TypeError", "object of type '%s' has no len()" % t)
    r = m.w.length(m, st, v)
    if r is not None:
        return r
    if v[1] == "concat":
        n = 0
        rest = []
        for p in v[2:]:
            l = length(m, st, p)
            if is_k(l):
                n += kval(l)
            else:
                rest.append(l)
        if not rest:
            return K(n)
    for f, val in st.facts.items():
        if f[0] == "t" and f[1] == "eq" and val is True and (f[2] == T("len", v) or f[3] == T("len", v)):
            o = f[3] if f[2] == T("len", v) else f[2]
            if is_k(o):
                return o
    lo, hi = m.bounds(st, T("len", v))
    if lo == hi and lo is not None:
        return K(lo)
    return T("len", v)


def unpack_parts(m, st, t, n, more=False):
    """the parts of a text, of which there may be another number"""
    ln = length(m, st, t)
    if (kval(ln) < n) if is_k(ln) else m.ask(st, T("lt", ln, K(n))):
        m.throw(st, "ValueError", "not enough values to unpack")
    if not more and ((kval(ln) > n) if is_k(ln) else m.ask(st, T("lt", K(n), ln))):
        m.throw(st, "ValueError", "too many values to unpack")
    return [T("item", t, K(i)) for i in range(n)]


def split_parts(m, st, t, n):
    """the parts of a text, at least n of them: two more at most, or any number"""
    unpack_parts(m, st, t, n, more=True)
    ln = length(m, st, t)
    for k in range(n, n + 3):
        if (kval(ln) == k) if is_k(ln) else m.ask(st, T("lt", ln, K(k + 1))):
            return tuple(("i", T("item", t, K(i))) for i in range(k))
    return tuple(("i", T("item", t, K(i))) for i in range(n + 3)) + (("s", T("slice", t, K(n + 3), NONE, NONE)),)


def unpack(m, st, v, n):
    if v[0] == "tup":
        items = list(v[1])
    elif v[0] == "t":
        v2 = m.resolve(st, v)
        if v2[0] != "t":
            return unpack(m, st, v2, n)
        r = m.w.unpack(m, st, v, n)
        if r is not None:
            return r
        if v2[1] in ("str.split", "str.rsplit", "str.splitlines"):
            return unpack_parts(m, st, v2, n)
        if v2[1] in ("str.partition", "str.rpartition") and n != 3:
            m.throw(st, "ValueError", "not enough values to unpack" if n > 3 else "too many values to unpack")
        return [T("item", v2, K(i)) for i in range(n)]
    elif v[0] == "r" and st.get(v)["kind"] == "inst" and st.get(v).get("fields"):
        o = st.get(v)
        items = [o["attrs"][x] for x in o["fields"]]
    else:
        segs = concrete_segs(m, st, v)
        if segs is None:
            if v[0] == "r" and st.get(v)["kind"] in ("gen", "mapit", "zip"):
                pre = m.prog.prelude_names(st)
                raise Unsupported("unpacking a generator")
            raise Unsupported("unpacking %r" % (v[:2],))
        if not exact(segs):
            if len(segs) == 1 and segs[0][0] == "s":
                if segs[0][1][0] == "t" and segs[0][1][1] in ("str.split", "str.rsplit", "str.splitlines"):
                    return unpack_parts(m, st, segs[0][1], n)
                return [T("item", segs[0][1], K(i)) for i in range(n)]
            raise Unsupported("unpacking a summary")
        items = [s[1] for s in segs]
    if len(items) != n:
        m.throw(st, "ValueError", "not enough values to unpack" if len(items) < n else "too many values to unpack")
    return items


def norm_index(m, st, k):
    if k[0] == "r":
        o = st.get(k)
        if o["kind"] == "inst" and o.get("enum"):
            return o["attrs"]["value"]
    return m.resolve(st, k)


def subscr(m, st, o, k):
    o = m.resolve(st, o)
    k = norm_index(m, st, k)
    if k[0] == "slice":
        if len(k) == 3:
            return slice_of(m, st, o, k[1], k[2])
        return slice_of(m, st, o, k[1], k[2], k[3])
    h = o[0]
    if h == "ext":
        return o        # generic alias such as List[str]
    if h == "k":
        if is_k(k):
            try:
                return K(o[2][k[2]])
            except (IndexError, KeyError, TypeError) as e:
                m.throw(st, type(e).__name__, str(e))
        if o[1] == "NoneType":
            m.throw(st, "TypeError", "'NoneType' object is not subscriptable")
        return T("item", o, k)
    if h == "tup":
        if is_int_k(k):
            try:
                return o[1][k[2]]
            except IndexError:
                m.throw(st, "IndexError", "tuple index out of range")
        return pick(m, st, [("i", x) for x in o[1]], k)
    if h == "r":
        ob = st.get(o)
        kd = ob["kind"]
        if kd == "dict":
            return dict_get(m, st, o, k)
        if kd in ("list", "tuple", "deque"):
            segs = ob["segs"]
            if is_int_k(k):
                i = k[2]
                if i >= 0:
                    if all(s[0] == "i" for s in segs[:i + 1]) and len(segs) > i:
                        return segs[i][1]
                else:
                    if all(s[0] == "i" for s in segs[i:]) and len(segs) >= -i:
                        return segs[i][1]
                if exact(segs):
                    m.throw(st, "IndexError", "list index out of range")
                if len(segs) == 1 and segs[0][0] == "s":
                    return opaque_item(m, st, segs[0][1], k)
                return pick(m, st, segs, k)
            if len(segs) == 1 and segs[0][0] == "s":
                return opaque_item(m, st, segs[0][1], k)
            return pick(m, st, segs, k)
        if kd == "inst":
            f = m.lookup_class_attr(st, ob["cls"], "__getitem__")
            if f is not None:
                return m.call(st, ("bm", f, o), [k], {})
            if ob.get("fields") and is_int_k(k):
                return ob["attrs"][ob["fields"][k[2]]]
        if kd == "class":
            f = m.lookup_class_attr(st, o, "__class_getitem__")
            if ob.get("members") is not None and is_k(k) and k[2] in ob["attrs"]:
                return ob["attrs"][k[2]]
            return o
        r = m.w.subscr(m, st, o, k)
        if r is not None:
            return r
        m.throw(st, "TypeError", "'%s' object is not subscriptable" % kd)
    if h == "t":
        return opaque_item(m, st, o, k)
    raise Unsupported("subscript of %r" % (o[:2],))


def is_int_k(k):
    return k[0] == "k" and k[1] in ("int", "bool")


def opaque_item(m, st, t, k):
    """item k of an opaque sequence or mapping: may not exist"""
    r = m.w.subscr(m, st, t, k)
    if r is not None:
        return r
    ty = m.typ(st, t)
    if ty in ("str", "list", "tuple", "bytes") or t[1] in ("str.split", "str.rsplit"):
        if is_int_k(k):
            n = k[2]
            need = n + 1 if n >= 0 else -n
            if t[1] in ("str.split", "str.rsplit") and need <= 1 and len(t) > 3:
                return T("item", t, k)
            if t[1] in ("str.partition", "str.rpartition") and need <= 3:
                return T("item", t, k)
            ln = length(m, st, t)
            lt = T("lt", ln, K(need))
            if (kval(ln) < need) if is_k(ln) else m.ask(st, lt):
                m.throw(st, "IndexError", "index out of range")
            if ty == "str" and is_k(ln) and kval(ln) == 1:
                return t
            return T("item", t, k)
        if m.typ(st, k) == "int":
            ln = length(m, st, t)
            if not m.ask(st, T("lt", k, ln)):
                m.throw(st, "IndexError", "index out of range")
            return T("item", t, k)
    if ty == "dict" or m.typ(st, k) == "str":
        if ty == "dict":
            if not m.ask(st, T("in", k, t)):
                raise PyRaise(m.new_exc(st, "KeyError", k))
            return m.w.mapping_value(m, st, t, k)
    if ty in ("int", "float", "bool", "NoneType"):
        m.throw(st, "TypeError", "'%s' object is not subscriptable" % ty)
    return T("item", t, k)


def pick(m, st, segs, k):
    """item with an unknown index from segments: any of them, or IndexError"""
    opts = list(range(len(segs)))
    if not opts:
        m.throw(st, "IndexError", "list index out of range")
    c = m.choose(st, "which item", opts)
    s = segs[c]
    if s[0] == "i":
        if m.typ(st, k) == "int" and k[0] == "t" and exact(segs):
            m.learn(st, m.mk_eq_raw(k, K(c)), True)
        return s[1]
    if s[0] == "s":
        return item_of(m, st, s[1])
    vs = sorted(s[1], key=repr)
    it = m.instantiate(st, vs[m.choose(st, "which item", list(range(len(vs))))])
    return item_of(m, st, it[1]) if it[0] == "spread" else it[0]


def slice_of(m, st, o, a, b, step=NONE):
    o = m.resolve(st, o)
    a, b, step = m.resolve(st, a), m.resolve(st, b), m.resolve(st, step)
    allk = is_k(a) and is_k(b) and is_k(step)
    if o[0] == "k" and allk:
        return K(o[2][slice(a[2], b[2], step[2])])
    if o[0] == "tup" and allk:
        return ("tup", tuple(o[1][slice(a[2], b[2], step[2])]))
    if o[0] == "r":
        ob = st.get(o)
        if ob["kind"] in ("list", "tuple"):
            segs = ob["segs"]
            if allk and exact(segs):
                return st.new(ob["kind"], segs=tuple(segs[slice(a[2], b[2], step[2])]))
            if allk and a[2] in (None, 0) and b[2] is None and step[2] in (None, 1):
                return st.new(ob["kind"], segs=segs)
            if len(segs) == 1 and segs[0][0] == "s":
                return st.new(ob["kind"], segs=(("s", T("slice", segs[0][1], a, b, step)),))
            if allk and a[2] is not None and a[2] >= 0 and b[2] is None and step[2] in (None, 1) and all(s[0] == "i" for s in segs[:a[2]]):
                return st.new(ob["kind"], segs=segs[a[2]:])
            if exact(segs) and step in (NONE, K(1)):
                # unknown bounds: fork over them
                n = len(segs)

                def bound(x, d):
                    if x == NONE:
                        return d
                    if is_k(x):
                        return x[2]
                    for i in range(n + 1):
                        if m.ask(st, m.mk_eq_raw(x, K(i))):
                            return i
                    return n
                i, j = bound(a, 0), bound(b, n)
                return st.new(ob["kind"], segs=tuple(segs[i:j]))
            return st.new(ob["kind"], segs=m.summarise(st, segs))
        r = m.w.subscr(m, st, o, ("slice", a, b, step))
        if r is not None:
            return r
        m.throw(st, "TypeError", "'%s' object is not subscriptable" % ob["kind"])
    if o[0] == "t":
        if (a == NONE or a == K(0)) and b == NONE and step in (NONE, K(1)) and m.typ(st, o) in ("str", "tuple"):
            return o
        r = m.w.subscr(m, st, o, ("slice", a, b, step))
        if r is not None:
            return r
        ln = m.bounds(st, T("len", o)) if m.typ(st, o) == "str" else (None, None)
        if allk and ln[0] == ln[1] and ln[0] in (0, 1):
            idx = list(range(ln[0]))[slice(a[2], b[2], step[2])]
            return o if len(idx) == 1 else K("")
        return T("slice", o, a, b, step)
    m.throw(st, "TypeError", "not subscriptable")


def store_subscr(m, st, o, k, v):
    k = norm_index(m, st, k)
    m.w.on_mutate(m, st, o, "item assignment", (k, v))
    if o[0] == "r":
        ob = st.get(o)
        kd = ob["kind"]
        if kd == "dict":
            return dict_set(m, st, o, k, v, quiet=True)
        if kd in ("list", "deque"):
            segs = ob["segs"]
            if is_int_k(k) and exact(segs):
                if not -len(segs) <= k[2] < len(segs):
                    m.throw(st, "IndexError", "list assignment index out of range")
                l = list(segs)
                l[k[2]] = ("i", v)
                st.upd(o, segs=tuple(l))
                return
            st.upd(o, segs=m.summarise(st, segs + (("i", v),)))
            return
        if kd == "inst":
            f = m.lookup_class_attr(st, ob["cls"], "__setitem__")
            if f is not None:
                return m.call_with_ret(st, f, [o, k, v], {}, ("drop",))
        if m.w.store_subscr(m, st, o, k, v):
            return
        m.throw(st, "TypeError", "object does not support item assignment")
    if o[0] == "t":
        if m.w.store_subscr(m, st, o, k, v):
            return
        if m.typ(st, o) in ("str", "int", "tuple"):
            m.throw(st, "TypeError", "object does not support item assignment")
        return
    m.throw(st, "TypeError", "object does not support item assignment")


def delete_subscr(m, st, o, k):
    m.w.on_mutate(m, st, o, "item deletion", (k,))
    if o[0] == "r":
        ob = st.get(o)
        segs = ob["segs"]
        if ob["kind"] == "dict":
            i = dict_find(m, st, segs, k)
            if i is not None:
                st.upd(o, segs=segs[:i] + segs[i + 1:])
                return
            if exact(segs):
                raise PyRaise(m.new_exc(st, "KeyError", k))
            return
        if ob["kind"] == "list":
            if is_int_k(k) and exact(segs):
                l = list(segs)
                try:
                    del l[k[2]]
                except IndexError:
                    m.throw(st, "IndexError", "list assignment index out of range")
                st.upd(o, segs=tuple(l))
                return
            if k[0] == "slice" and exact(segs) and all(is_k(x) for x in k[1:]):
                l = list(segs)
                del l[slice(*[x[2] for x in k[1:]])]
                st.upd(o, segs=tuple(l))
                return
            st.upd(o, segs=m.summarise(st, segs))
            return
    raise Unsupported("del of item of %r" % (o[:2],))


# ---------------------------------------------------------------- operators
ARITH = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
         "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a ** b, "&": lambda a, b: a & b,
         "|": lambda a, b: a | b, "^": lambda a, b: a ^ b, "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b}
DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "&": "and", "|": "or", "^": "xor", "**": "pow"}


def binary(m, st, sym, a, b):
    inplace = sym.endswith("=") and sym not in ("==", "<=", ">=", "!=")
    op = sym[:-1] if inplace else sym
    a, b = m.resolve(st, a), m.resolve(st, b)
    for x in (a, b):
        if x[0] == "r":
            o = st.get(x)
            if o["kind"] == "inst" and o.get("enum"):
                if x is a:
                    a = o["attrs"]["value"]
                else:
                    b = o["attrs"]["value"]
    if a[0] == "k" and b[0] == "k":
        try:
            r = ARITH[op](a[2], b[2])
        except Exception as e:
            m.throw(st, type(e).__name__, str(e))
        return K(r)
    r = m.w.binary(m, st, op, a, b, inplace)
    if r is not None:
        return r
    ka = st.get(a)["kind"] if a[0] == "r" else None
    kb = st.get(b)["kind"] if b[0] == "r" else None
    if op == "%" and (m.typ(st, a) == "str"):
        return percent_format(m, st, a, b)
    if a[0] == "tup" and b[0] == "tup" and op == "+":
        return ("tup", a[1] + b[1])
    if op == "*" and ((a[0] == "tup" and is_int_k(b)) or (b[0] == "tup" and is_int_k(a))):
        t, n = (a, b) if a[0] == "tup" else (b, a)
        return ("tup", t[1] * n[2])
    if ka in ("list",) and op == "+":
        segs = concrete_segs(m, st, b) if (kb in ("list", "tuple") or b[0] in ("tup", "t") or inplace) else None
        if segs is None:
            if inplace:
                list_extend(m, st, a, b)
                return a
            m.throw(st, "TypeError", "can only concatenate list to list")
        if inplace:
            m.w.on_mutate(m, st, a, "+=", (b,))
            st.upd(a, segs=st.get(a)["segs"] + segs)
            return a
        if b[0] == "tup" or kb == "tuple":
            m.throw(st, "TypeError", "can only concatenate list (not \"tuple\") to list")
        return st.new("list", segs=st.get(a)["segs"] + segs)
    if op == "*" and ("list" in (ka, kb)):
        l, n = (a, b) if ka == "list" else (b, a)
        if is_int_k(n):
            return st.new("list", segs=st.get(l)["segs"] * max(n[2], 0))
        segs = st.get(l)["segs"]
        return st.new("list", segs=(("s", T("repeat", freeze(m, st, l), n)),))
    if a[0] == "t" and m.typ(st, a) == "list" and op == "+" and kb == "list":
        return st.new("list", segs=(("s", a),) + st.get(b)["segs"])
    setk = ("set", "frozenset")
    if op in ("&", "|", "-", "^") and (ka in setk or kb in setk or ka == "dictkeys"):
        return set_op(m, st, op, a, b, inplace)
    if ka == "dict" and kb == "dict" and op == "|":
        d = a
        if not inplace:
            d = st.new("dict", segs=st.get(a)["segs"])
        else:
            m.w.on_mutate(m, st, a, "|=", (b,))
        dict_update(m, st, d, b)
        return d
    for x, y, pre in ((a, b, "__"), (b, a, "__r")):
        if x[0] == "r" and st.get(x)["kind"] == "inst":
            f = m.lookup_class_attr(st, st.get(x)["cls"], pre + DUNDER.get(op, "?") + "__")
            if f is not None:
                return m.call(st, f, [x, y], {})
    ta, tb = m.typ(st, a), m.typ(st, b)
    if op == "+" and (ta == "str" or tb == "str"):
        if ta not in ("str", None) or tb not in ("str", None):
            m.throw(st, "TypeError", 'can only concatenate str (not "%s") to str' % (tb if ta == "str" else ta))
        return concat(m, st, [a, b])
    if ta == "NoneType" or tb == "NoneType":
        m.throw(st, "TypeError", "unsupported operand type(s) for %s" % op)
    num = ("int", "float", "bool")
    if op == "+" and a[0] == "t" and a[1] == "+" and is_k(b) and is_k(a[3]) and ta in num:
        return T("+", a[2], K(a[3][2] + b[2])) if a[3][2] + b[2] != 0 else a[2]
    if op == "-" and is_k(b) and b[1] == "int" and ta == "int":
        return binary(m, st, "+", a, K(-b[2]))
    if op == "+" and is_k(a) and ta in num and tb in num:
        a, b = b, a
        if a[0] == "t" and a[1] == "+" and is_k(a[3]):
            return binary(m, st, "+", a, b)
    if op == "+" and is_k(b) and b[2] == 0 and tb == "int":
        return a
    if op == "-" and a == b and ta == "int":
        return K(0)
    if op == "*" and is_k(a) and ta in num and tb in num:
        a, b = b, a
    if op in ("/", "//", "%") and tb in ("int", "float"):
        z = m.mk_eq_raw(b, K(0))
        if m.ask(st, z) if not is_k(b) else b[2] == 0:
            m.throw(st, "ZeroDivisionError", "division by zero")
    if ka in ("list", "dict", "set") or kb in ("list", "dict", "set"):
        other = tb if ka else ta
        if other is not None:
            m.throw(st, "TypeError", "unsupported operand type(s) for %s" % op)
    fa, fb = freeze(m, st, a), freeze(m, st, b)
    return T(op, fa, fb)


def set_op(m, st, op, a, b, inplace=False):
    sa, sb = members(m, st, a), members(m, st, b)
    if sa is None or sb is None:
        raise Unsupported("set operation")
    out = []
    if op == "|":
        res = st.new("set", segs=sa)
        for s in sb:
            if s[0] == "i":
                set_add(m, st, res, s[1])
            else:
                st.upd(res, segs=st.get(res)["segs"] + (s,))
        segs = st.get(res)["segs"]
    else:
        if op == "^":
            raise Unsupported("symmetric difference")
        segs = ()
        if op == "&" and not exact(sa) and exact(sb):
            sa, sb = sb, sa
        for s in sa:
            if s[0] == "i":
                c = contains_val(m, st, s[1], sb)
                if c == (op == "&"):
                    segs += (s,)
            elif not sb:
                if op == "-":
                    segs += (s,)
            else:
                segs += (("s", T(op, s[1] if s[0] == "s" else T("snap", s), T("snap", tuple(sb)))),)
    if inplace:
        m.w.on_mutate(m, st, a, op + "=", (b,))
        st.upd(a, segs=segs)
        return a
    return st.new("set", segs=segs)


def concat(m, st, parts):
    out = []
    for p in parts:
        p = m.resolve(st, p)
        ps = list(p[2:]) if p[0] == "t" and p[1] == "concat" else [p]
        for x in ps:
            if x[0] == "k" and x[2] == "" and isinstance(x[2], str):
                continue
            if out and out[-1][0] == "k" and x[0] == "k":
                out[-1] = K(out[-1][2] + x[2])
            else:
                out.append(x)
    if not out:
        return K("")
    if len(out) == 1:
        return out[0]
    return T("concat", *[freeze(m, st, x) for x in out])


def str_of(m, st, v):
    v = m.resolve(st, v)
    if v[0] == "k":
        return K(str(v[2]))
    if v[0] == "t" and m.typ(st, v) == "str":
        return v
    if v[0] == "r":
        o = st.get(v)
        if o["kind"] == "exc":
            a = o["args"]
            if len(a) == 1:
                return str_of(m, st, a[0]) if a[0][0] in ("k", "t") else T("strof", freeze(m, st, a[0]))
            if not a and not o.get("unknown"):
                return K("")
            return T("strof", ("exc", cls_name(m, st, o["cls"])) if not o.get("unknown") else ("exc", v[1]))
        if o["kind"] == "inst":
            if o.get("enum"):
                if "str" in o["enum"]:
                    return K("%s.%s" % (cls_name(m, st, o["cls"]), o["attrs"]["name"][2]))
                return T("strof", freeze(m, st, v))
            f = m.lookup_class_attr(st, o["cls"], "__str__") or m.lookup_class_attr(st, o["cls"], "__repr__")
            if f is not None:
                return m.call(st, f, [v], {})
    return T("strof", freeze(m, st, v))


def repr_of(m, st, v):
    v = m.resolve(st, v)
    if v[0] == "k":
        return K(repr(v[2]))
    return T("repr", freeze(m, st, v))


def format_value(m, st, v, conv, spec):
    if spec is not None and spec != K(""):
        if is_k(v) and is_k(spec):
            try:
                return K(format(v[2], spec[2]))
            except Exception as e:
                m.throw(st, type(e).__name__, str(e))
        return T("fmt", K("{:}"), freeze(m, st, v), spec)
    if conv == 2:
        return repr_of(m, st, v)
    if conv == 3:
        return T("fmt", K("ascii"), freeze(m, st, v))
    v = m.resolve(st, v)
    if v[0] == "r" and st.get(v)["kind"] == "inst" and not st.get(v).get("enum"):
        return T("strof", freeze(m, st, v))
    return str_of(m, st, v)


def percent_format(m, st, a, b):
    if a[0] != "k":
        return T("fmt", a, freeze(m, st, b))
    import re
    fm = a[2]
    args = list(b[1]) if b[0] == "tup" else [b]
    if b[0] == "r" and st.get(b)["kind"] in ("dict", "tuple"):
        return T("fmt", a, freeze(m, st, b))
    pos = 0
    i = 0
    parts = []
    for mm in re.finditer(r"%(?P<flags>[-+ #0]*)(?P<w>\d+|\*)?(?P<p>\.\d+)?(?P<c>[a-zA-Z%])", fm):
        parts.append(K(fm[pos:mm.start()]))
        pos = mm.end()
        c = mm.group("c")
        if c == "%":
            parts.append(K("%"))
            continue
        if i >= len(args):
            m.throw(st, "TypeError", "not enough arguments for format string")
        x = m.resolve(st, args[i])
        i += 1
        plain = not mm.group("flags") and not mm.group("w") and not mm.group("p")
        if x[0] == "k":
            try:
                parts.append(K(mm.group(0) % x[2]))
            except Exception as e:
                m.throw(st, type(e).__name__, str(e))
        elif c == "s" and plain and x[0] == "t" and m.typ(st, x) == "str":
            parts.append(x)
        elif c == "s" and plain:
            parts.append(T("strof", freeze(m, st, x)))
        elif c == "r" and plain:
            parts.append(T("repr", freeze(m, st, x)))
        else:
            if c in "dfieg" and (m.typ(st, x) in ("str", "NoneType")):
                m.throw(st, "TypeError", "%%%s format: a number is required" % c)
            parts.append(T("fmt", K(mm.group(0)), freeze(m, st, x)))
    if i < len(args):
        m.throw(st, "TypeError", "not all arguments converted during string formatting")
    parts.append(K(fm[pos:]))
    return concat(m, st, parts)


def logical_not(m, st, v):
    if v[0] == "t" and m.typ(st, v) == "bool":
        d = m.decide(st, v)
        return negate(v) if d is None else K(not d)
    return K(not truth(m, st, v))


def negate(r):
    if r[0] == "k":
        return K(not r[2])
    if r[0] == "t" and r[1] == "not":
        return r[2]
    return T("not", r)


def compare(m, st, op, a, b):
    op = op.replace("bool(", "").rstrip(")")
    if op in ("==", "!="):
        for x, y in ((a, b), (b, a)):
            f = user_eq(m, st, x)
            if f is not None and f[0] == "r" and a != ("skip",):
                r = m.w.inst_compare(m, st, x, y)
                if r is not None:
                    return K(r if op == "==" else not r)
                if op == "!=":
                    nf = m.lookup_class_attr(st, st.get(x)["cls"], "__ne__")
                    if nf is not None:
                        return m.call(st, nf, [x, y], {})
                return m.call_with_ret(st, f, [x, y], {}, ("bool",) if op == "==" else ("notbool",))
        r = bool_val(m, equal(m, st, a, b))
        if r[0] == "t":
            d = m.decide(st, r)
            if d is not None:
                r = K(d)
        return negate(r) if op == "!=" else r
    meth = {"<": "__lt__", ">": "__gt__", "<=": "__le__", ">=": "__ge__"}[op]
    refl = {"<": "__gt__", ">": "__lt__", "<=": "__ge__", ">=": "__le__"}[op]
    for x, y, n in ((a, b, meth), (b, a, refl)):
        if x[0] == "r" and st.get(x)["kind"] == "inst":
            f = m.lookup_class_attr(st, st.get(x)["cls"], n)
            if f is not None:
                return m.call_with_ret(st, f, [x, y], {}, ("cmp",))
    r = less(m, st, op, a, b)
    if r[0] == "t":
        d = m.decide(st, r)
        if d is not None:
            return K(d)
    return r


def less(m, st, op, a, b):
    a, b = m.resolve(st, a), m.resolve(st, b)
    if op == ">":
        return less(m, st, "<", b, a)
    if op == ">=":
        return less(m, st, "<=", b, a)
    if a[0] == "k" and b[0] == "k":
        try:
            return K(a[2] < b[2] if op == "<" else a[2] <= b[2])
        except TypeError as e:
            m.throw(st, "TypeError", str(e))
    r = m.w.less(m, st, op, a, b)
    if r is not None:
        return r
    ia, ib = simple_items(m, st, a), simple_items(m, st, b)
    if ia is not None and ib is not None:
        for x, y in zip(ia, ib):
            if not eq_ask(m, st, x, y):
                return less(m, st, "<", x, y)
        return K(len(ia) < len(ib) if op == "<" else len(ia) <= len(ib))
    for x in (a, b):
        if x[0] == "r" and st.get(x)["kind"] in ("set", "frozenset"):
            sa, sb = members(m, st, a), members(m, st, b)
            if exact(sa):
                sub = all(contains_val(m, st, s[1], sb) for s in sa)
                if op == "<=":
                    return K(sub)
            return T("subset" + op, freeze(m, st, a), freeze(m, st, b))
    ta, tb = m.typ(st, a), m.typ(st, b)
    num = ("int", "float", "bool")
    if ta is not None and tb is not None and isinstance(ta, str) and isinstance(tb, str):
        if ta != tb and not (ta in num and tb in num) and ta in TYPE_BASES and tb in TYPE_BASES:
            m.throw(st, "TypeError", "'%s' not supported between instances of '%s' and '%s'" % (op, ta, tb))
        if ta == tb == "NoneType":
            m.throw(st, "TypeError", "'<' not supported between instances of 'NoneType' and 'NoneType'")
    for t, x in ((ta, a), (tb, b)):
        if t is None and x[0] == "t" and m.decide(st, T("isnone", x)) is True:
            m.throw(st, "TypeError", "'<' not supported with None")
    fa, fb = freeze(m, st, a), freeze(m, st, b)
    if op == "<":
        return T("lt", fa, fb)
    return T("not", T("lt", fb, fa))


def is_same(m, st, a, b):
    a, b = m.resolve(st, a), m.resolve(st, b)
    if a == b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if y == NONE:
            if x[0] in ("k", "tup", "r", "ext", "bm", "ebm", "F"):
                return FALSE
            t = m.typ(st, x)
            if t is not None and t != "?" and t != "NoneType":
                return FALSE
            r = T("isnone", x)
            d = m.decide(st, r)
            return r if d is None else K(d)
    if a[0] == "ext" and b[0] == "ext":
        return K(alias_cls(a[1]) == alias_cls(b[1]))
    if a[0] == "r" or b[0] == "r":
        if (a[0] == "r" and b[0] == "r") or "k" in (a[0], b[0]) or "tup" in (a[0], b[0]):
            return FALSE
        x = b if a[0] == "r" else a
        if x[0] == "t" and x[1] in ("eq", "lt") or m.typ(st, x) in ("str", "int", "bool"):
            return FALSE
    if a[0] == "k" and b[0] == "k":
        return K(a[2] is b[2] or (a[1] == b[1] and a[2] == b[2]))
    if a[0] == "t" and b[0] == "t":
        return m.w.is_same(m, st, a, b) or T("is", *sorted((a, b), key=repr))
    for x, y in ((a, b), (b, a)):
        if y[0] == "k" and y[1] == "bool" and m.typ(st, x) == "bool":
            return x if y[2] else negate(x)
    return T("is", freeze(m, st, a), freeze(m, st, b))


def contains(m, st, x, c, invert):
    c = m.resolve(st, c)
    x = m.resolve(st, x)

    def out(r):
        r = K(r) if isinstance(r, bool) else r
        if r[0] == "t":
            d = m.decide(st, r)
            if d is not None:
                r = K(d)
        return negate(r) if invert else r
    r = m.w.contains(m, st, x, c)
    if r is not None:
        return out(r)
    if c[0] == "k":
        if isinstance(c[2], str):
            if x[0] == "k":
                try:
                    return out(x[2] in c[2])
                except TypeError as e:
                    m.throw(st, "TypeError", str(e))
            if m.typ(st, x) == "NoneType":
                m.throw(st, "TypeError", "'in <string>' requires string as left operand, not NoneType")
            lo, hi = m.bounds(st, T("len", x))
            if lo == hi == 1 or len(c[2]) == 1 and False:
                return out(any(m.ask(st, m.mk_eq_raw(x, K(ch))) for ch in dict.fromkeys(c[2])))
            if m.decide(st, m.mk_eq_raw(x, K(""))) is True:
                return out(True)
            return out(T("in", x, c))
        if isinstance(c[2], bytes):
            return out(x[2] in c[2] if x[0] == "k" else T("in", x, c))
        m.throw(st, "TypeError", "argument of type '%s' is not iterable" % c[1])
    if c[0] == "t":
        t = m.typ(st, c)
        if t in ("int", "float", "bool", "NoneType"):
            m.throw(st, "TypeError", "argument of type '%s' is not iterable" % t)
        if m.decide(st, T("isnone", c)) is True:
            m.throw(st, "TypeError", "argument of type 'NoneType' is not iterable")
        if t == "str":
            if x[0] == "k" and x[2] == "":
                return out(True)
            if m.typ(st, x) == "NoneType":
                m.throw(st, "TypeError", "'in <string>' requires string")
            lo, hi = m.bounds(st, T("len", c))
            if lo == hi == 1:
                xl = m.bounds(st, T("len", x)) if x[0] == "t" else (len(x[2]),) * 2
                if xl[0] == xl[1] == 1:
                    return out(mk_eq(m, st, x, c))
        return out(T("in", freeze(m, st, x), c))
    if c[0] == "r":
        o = st.get(c)
        if o["kind"] == "inst":
            f = m.lookup_class_attr(st, o["cls"], "__contains__")
            if f is not None:
                return m.call_with_ret(st, f, [c, x], {}, ("notbool",) if invert else ("bool",))
            if o.get("fields"):
                return out(contains_val(m, st, x, tuple(("i", o["attrs"][n]) for n in o["fields"])))
        if o["kind"] in ("gen", "mapit", "zip", "enum") or (o["kind"] == "inst"):
            pre = m.prog.prelude_names(st)
            return m.call_with_ret(st, pre["_vp_contains"], [c, x], {}, ("notbool",) if invert else ("bool",))
        if o["kind"] in ("set", "frozenset", "dict") and hashable_check(m, st, x):
            m.throw(st, "TypeError", "unhashable type")
    if c[0] == "ext":
        raise Unsupported("membership in %s" % c[1])
    segs = members(m, st, c) if c[0] == "r" and st.get(c)["kind"] in ("set", "frozenset") else segments(m, st, c)
    return out(contains_val(m, st, x, segs))


def truth_method(m, st, v):
    """the function that decides the truth of an instance, if it has one"""
    o = st.get(v)
    if o["kind"] != "inst" or o.get("enum"):
        return None
    f = m.lookup_class_attr(st, o["cls"], "__bool__")
    return f if f is not None else m.lookup_class_attr(st, o["cls"], "__len__")


def truth(m, st, v):
    v = m.resolve(st, v)
    h = v[0]
    if h == "k":
        return bool(v[2])
    if h == "tup":
        return bool(v[1])
    if h in ("ext", "bm", "ebm", "code"):
        return True
    if h == "r":
        o = st.get(v)
        k = o["kind"]
        if k in ("list", "dict", "set", "frozenset", "tuple", "deque"):
            segs = o["segs"]
            if any(s[0] == "i" for s in segs):
                return True
            if not segs:
                return False
            if len(segs) == 1 and segs[0][0] == "s":
                return m.ask(st, T("truth", segs[0][1])) if m.w.spread_truth(m, st, segs[0][1]) is None else m.w.spread_truth(m, st, segs[0][1])
            return m.choose(st, "collection is not empty", [True, False])
        if k == "inst":
            if o.get("enum"):
                return truth(m, st, o["attrs"]["value"]) if ("str" in o["enum"] or "int" in o["enum"]) else True
            f = m.lookup_class_attr(st, o["cls"], "__bool__")
            if f is not None:
                raise Unsupported("__bool__")
            f = m.lookup_class_attr(st, o["cls"], "__len__")
            if f is not None:
                raise Unsupported("__len__ as truth")
            return True
        r = m.w.truth(m, st, v)
        return True if r is None else r
    if h == "t":
        t = m.typ(st, v)
        if t == "bool":
            return m.ask(st, v)
        if t == "NoneType":
            return False
        r = m.w.truth(m, st, v)
        if r is not None:
            return r
        if t == "str":
            return not m.ask(st, m.mk_eq_raw(v, K("")))
        if t in ("int", "float"):
            return not m.ask(st, m.mk_eq_raw(v, K(0)))
        if t in ("list", "dict", "tuple", "set", "frozenset", "bytes"):
            ln = length(m, st, v)
            if is_k(ln):
                return kval(ln) > 0
            return m.ask(st, T("truth", v))
        if isinstance(t, tuple):
            return True
        return m.ask(st, T("truth", v))
    raise Unsupported("truth of %r" % (v[:2],))


# --------------------------------------------------------------- attributes
LIST_M = {"append", "extend", "insert", "pop", "remove", "index", "count", "sort", "reverse", "clear", "copy"}
DICT_M = {"get", "keys", "values", "items", "pop", "update", "setdefault", "clear", "copy", "popitem", "fromkeys", "most_common", "elements", "subtract",
          "move_to_end"}
SET_M = {"add", "remove", "discard", "pop", "clear", "copy", "union", "intersection", "difference", "update", "issubset", "issuperset", "isdisjoint",
         "symmetric_difference", "intersection_update", "difference_update"}


def wrap_method(m, st, v, self_, cls):
    """class attribute v seen through instance self_ (or the class when self_ is None)"""
    if v[0] == "r":
        o = st.get(v)
        k = o["kind"]
        if k in ("func", "cached"):
            return ("bm", v, self_) if self_ is not None else v
        if k == "classmethod":
            return ("bm", o["func"], cls)
        if k == "staticmethod":
            return o["func"]
        if k == "property":
            if self_ is None:
                return v
            if o["fget"] == NONE:
                m.throw(st, "AttributeError", "unreadable attribute")
            return m.call(st, o["fget"], [self_], {})
        if k == "cachedprop":
            return v if self_ is None else m.call(st, o["func"], [self_], {})
    return v


def attr_error(m, st, o, name):
    t = type_of(m, st, o)
    m.throw(st, "AttributeError", "'%s' object has no attribute '%s'" % (cls_name(m, st, t) if t else "?", name))


def get_attr(m, st, o, name):
    r = m.w.get_attr(m, st, o, name)
    if r is not None:
        return r
    h = o[0]
    if h == "r":
        ob = st.get(o)
        k = ob["kind"]
        if k == "inst" or k == "exc":
            cls = ob["cls"]
            if cls[0] == "r" and ob.get("enum") and name in ("value", "name", "_value_", "_name_"):
                return ob["attrs"][name.strip("_")]
            ca = m.lookup_class_attr(st, cls, name)
            if ca is not None and ca[0] == "r" and st.get(ca)["kind"] == "property":
                return wrap_method(m, st, ca, o, cls)
            if name in ob["attrs"]:
                return ob["attrs"][name]
            if ca is not None:
                return wrap_method(m, st, ca, o, cls)
            if name == "__class__":
                return cls
            if name == "__dict__":
                return st.new("dict", segs=tuple(("i", K(n), v) for n, v in ob["attrs"].items()))
            if k == "exc":
                if name == "args":
                    return ("tup", tuple(ob["args"]))
                if name in ("__cause__", "__context__", "__traceback__"):
                    return NONE
                if name == "with_traceback":
                    return ("ebm", o, name)
                if ob.get("unknown") or name in ("errno", "strerror", "filename", "msg"):
                    return T("attr", freeze(m, st, o), K(name))
                attr_error(m, st, o, name)
            for c in m.mro(st, cls):
                if c[0] == "ext":
                    v = m.w.ext_class_attr(m, st, c[1], name, o)
                    if v is not None:
                        return v
                    v = ext_class_attr(m, st, c[1], name, o)
                    if v is not None:
                        return v
            if ob.get("enum") and "str" in ob["enum"] and hasattr(str, name):
                return ("ebm", ob["attrs"]["value"], name)
            f = m.lookup_class_attr(st, cls, "__getattr__")
            if f is not None:
                return m.call(st, f, [o, K(name)], {})
            if name in ("__eq__", "__ne__", "__hash__", "__init__", "__repr__", "__str__"):
                return ("ebm", o, name)
            attr_error(m, st, o, name)
        if k == "class":
            ca = m.lookup_class_attr(st, o, name)
            if ca is not None:
                return wrap_method(m, st, ca, None, o)
            if name in ("__name__", "__qualname__"):
                return K(ob["name"])
            if name == "__mro__":
                return ("tup", tuple(ob["mro"]))
            if name == "__bases__":
                return ("tup", tuple(ob["bases"]))
            if name == "__doc__":
                return NONE
            if name == "__module__":
                return K(ob.get("module", ""))
            if name == "__members__":
                return st.new("dict", segs=tuple(("i", K(st.get(x)["attrs"]["name"][2]), x) for x in ob.get("members", ())))
            for c in ob["mro"]:
                if c[0] == "ext":
                    v = m.w.ext_class_attr(m, st, c[1], name, None)
                    if v is None:
                        v = ext_class_attr(m, st, c[1], name, None)
                    if v is not None:
                        return v
            m.throw(st, "AttributeError", "type object '%s' has no attribute '%s'" % (ob["name"], name))
        if k == "module":
            if name in ob["attrs"]:
                return ob["attrs"][name]
            if name == "__name__":
                return K(ob["name"])
            if name == "__dict__":
                return st.new("dict", segs=tuple(("i", K(n), v) for n, v in ob["attrs"].items()))
            if name in ("__doc__", "__file__", "__spec__", "__path__"):
                return K(ob["name"] + "." + name)
            m.throw(st, "AttributeError", "module '%s' has no attribute '%s'" % (ob["name"], name))
        if k in ("func", "cached", "partial"):
            if name in ob.get("attrs", {}):
                return ob["attrs"][name]
            if name in ("__name__", "__qualname__") and k == "func":
                return K(ob["code"].name)
            if name in ("__doc__", "__module__", "__wrapped__", "__annotations__", "__dict__"):
                if name == "__wrapped__" and k == "cached":
                    return ob["func"]
                return NONE
            if k == "cached" and name in ("cache_clear", "cache_info", "cache_parameters"):
                return ("ebm", o, name)
            if name == "__get__":
                return ("ebm", o, name)
            attr_error(m, st, o, name)
        if k == "property" and name in ("setter", "getter", "deleter", "fget", "fset"):
            if name in ("fget", "fset"):
                return ob[name]
            return ("ebm", o, name)
        if k in ("list", "deque", "tuple") and (name in LIST_M or name in ("appendleft", "popleft", "extendleft", "__len__", "__getitem__", "__iter__", "__contains__", "__setitem__", "__delitem__", "__eq__")):
            return ("ebm", o, name)
        if k == "dict" and (name in DICT_M or name in ("__getitem__", "__setitem__", "__contains__", "__len__", "__iter__", "__delitem__", "__eq__")):
            return ("ebm", o, name)
        if k in ("set", "frozenset") and (name in SET_M or name in ("__contains__", "__len__", "__iter__")):
            return ("ebm", o, name)
        if k == "gen" and name in ("send", "close", "throw", "__next__", "__iter__"):
            return ("ebm", o, name)
        if k in ("iter", "zip", "mapit", "enum") and name in ("__next__", "__iter__"):
            return ("ebm", o, name)
        if k == "xobj":
            r = m.w.xattr(m, st, o, name)
            if r is not None:
                return r
            if name in ob["attrs"]:
                return ob["attrs"][name]
            return ("ebm", o, name)
        if name == "__class__":
            return type_of(m, st, o)
        attr_error(m, st, o, name)
    if h == "k":
        if hasattr(o[2], name):
            v = getattr(o[2], name)
            if callable(v):
                return ("ebm", o, name)
            if name == "__class__":
                return ("ext", BI + o[1])
            return K(v)
        attr_error(m, st, o, name)
    if h == "tup":
        if hasattr((), name):
            return ("ebm", o, name)
        attr_error(m, st, o, name)
    if h == "ext":
        return ext_attr(o, name)
    if h == "bm":
        if name == "__self__":
            return o[2]
        if name == "__func__":
            return o[1]
        return get_attr(m, st, o[1], name)
    if h == "ebm":
        if name in ("__name__", "__qualname__"):
            return K(o[2])
        if name == "__self__":
            return o[1]
        attr_error(m, st, o, name)
    if h == "t":
        o2 = m.resolve(st, o)
        if o2 != o:
            return get_attr(m, st, o2, name)
        t = m.typ(st, o)
        if isinstance(t, tuple) and t[0] == "r":
            ca = m.lookup_class_attr(st, t, name)
            if ca is not None and ca[0] == "r":
                return wrap_method(m, st, ca, o, t)
            return m.w.opaque_attr(m, st, o, name) or T("attr", o, K(name))
        if t in ("str", "int", "float", "bool", "bytes", "list", "dict", "set", "tuple"):
            c = getattr(_bi, t)
            if hasattr(c, name):
                if name == "__class__":
                    return ("ext", BI + t)
                return ("ebm", o, name)
            attr_error(m, st, o, name)
        if t == "NoneType" or m.decide(st, T("isnone", o)) is True:
            m.throw(st, "AttributeError", "'NoneType' object has no attribute '%s'" % name)
        r = m.w.opaque_attr(m, st, o, name)
        if r is not None:
            return r
        return T("attr", o, K(name))
    if h == "NULL":
        raise Unsupported("attribute of nothing")
    raise Unsupported("attribute %s of %r" % (name, h))


def ext_class_attr(m, st, cname, name, self_):
    """attribute an external class gives its instances/subclasses"""
    if cname == "csv.Dialect" or cname in ("csv.excel", "csv.excel_tab", "csv.unix_dialect"):
        t = CSV_ATTRS.get(cname, {})
        for c in ext_mro(m, cname):
            t = CSV_ATTRS.get(c, {})
            if name in t:
                return K(t[name])
        return None
    if cname == "builtins.object" and name in ("__init__", "__eq__", "__hash__", "__repr__", "__setattr__", "__getattribute__", "__class__", "__new__", "__ne__", "__init_subclass__"):
        if name == "__new__":
            return ("ext", "builtins.object.__new__")
        return ("ebm", self_, name) if self_ is not None else ("ext", "builtins.object." + name)
    if cname.startswith(BI) and isinstance(getattr(_bi, cname[9:], None), type) and issubclass(getattr(_bi, cname[9:]), BaseException):
        if name in ("__init__", "with_traceback"):
            return ("ebm", self_, name) if self_ is not None else ("ext", cname + "." + name)
    return None


CSV_ATTRS = {
    "csv.Dialect": dict(delimiter=None, quotechar=None, escapechar=None, doublequote=None, skipinitialspace=None,
                        lineterminator=None, quoting=None, _name="", _valid=False),
    "csv.excel": dict(delimiter=",", quotechar='"', doublequote=True, skipinitialspace=False, lineterminator="\r\n", quoting=0),
    "csv.excel_tab": dict(delimiter="\t"),
    "csv.unix_dialect": dict(delimiter=",", quotechar='"', doublequote=True, skipinitialspace=False, lineterminator="\n", quoting=1),
}
EXT_CONST = {"csv.QUOTE_MINIMAL": 0, "csv.QUOTE_ALL": 1, "csv.QUOTE_NONNUMERIC": 2, "csv.QUOTE_NONE": 3,
             "csv.QUOTE_STRINGS": 4, "csv.QUOTE_NOTNULL": 5, "sys.maxunicode": 0x10FFFF, "typing.TYPE_CHECKING": False, "sys.maxsize": 2 ** 63 - 1,
             "re.IGNORECASE": 2, "re.VERBOSE": 64, "re.UNICODE": 32, "re.DOTALL": 16, "re.MULTILINE": 8, "re.ASCII": 256,
             "os.sep": "/", "os.linesep": "\n", "sys.version_info": (3, 12, 3, "final", 0)}


def ext_attr(o, name):
    full = o[1] + "." + name
    if full.startswith("_csv."):
        alt = "csv." + full[5:]
        if alt in EXT_CONST:
            return K(EXT_CONST[alt])
    if full in EXT_CONST:
        return K(EXT_CONST[full])
    if o[1] in CSV_ATTRS:
        for c in (o[1], EXT_PARENT.get(o[1]), EXT_PARENT.get(EXT_PARENT.get(o[1]))):
            if c and name in CSV_ATTRS.get(c, {}):
                return K(CSV_ATTRS[c][name])
    if name in ("__name__", "__qualname__"):
        return K(o[1].split(".")[-1])
    if full == "sys.platform":
        return T("arg", "sys.platform", "str")
    if full == "os.environ":
        return T("arg", "os.environ", "dict")
    return ("ext", full)


def set_attr(m, st, o, name, v):
    if m.w.set_attr(m, st, o, name, v):
        return
    m.w.on_mutate(m, st, o, "attribute " + name, (v,))
    if o[0] == "r":
        ob = st.get(o)
        k = ob["kind"]
        if k in ("inst", "exc"):
            ca = m.lookup_class_attr(st, ob["cls"], name)
            if ca is not None and ca[0] == "r" and st.get(ca)["kind"] == "property":
                fs = st.get(ca)["fset"]
                if fs == NONE:
                    m.throw(st, "AttributeError", "property '%s' has no setter" % name)
                return m.call_with_ret(st, fs, [o, v], {}, ("drop",))
            f = m.lookup_class_attr(st, ob["cls"], "__setattr__")
            if f is not None:
                return m.call_with_ret(st, f, [o, K(name), v], {}, ("drop",))
            a = dict(ob["attrs"])
            a[name] = v
            st.upd(o, attrs=a)
            return
        if k in ("class", "module", "func", "xobj", "cached"):
            a = dict(ob["attrs"])
            a[name] = v
            st.upd(o, attrs=a)
            return
        m.throw(st, "AttributeError", "'%s' object has no attribute '%s'" % (k, name))
    if o[0] in ("t",):
        t = m.typ(st, o)
        if t in TYPE_BASES:
            m.throw(st, "AttributeError", "'%s' object has no attribute '%s'" % (t, name))
        return
    if o[0] == "ext":
        m.w.on_ext_write(m, st, o, name, v)
        return
    m.throw(st, "AttributeError", "object has no attribute '%s'" % name)


def super_attr(m, st, cls, self_, name):
    if self_[0] == "r" and st.get(self_)["kind"] == "class":
        mro = m.mro(st, self_)
        via = None
    else:
        t = type_of(m, st, self_)
        mro = m.mro(st, t)
        via = self_
    i = mro.index(cls) if cls in mro else -1
    for c in mro[i + 1:]:
        if c[0] == "r":
            a = st.get(c)["attrs"]
            if name in a:
                return wrap_method(m, st, a[name], via, self_ if via is None else type_of(m, st, self_))
        else:
            r = m.w.super_ext(m, st, c[1], self_, name)
            if r is not None:
                return r
            return ("ebm", ("super", c[1], self_), name)
    return ("ebm", ("super", "builtins.object", self_), name)


def has_attr(m, st, o, name):
    """True/False (may fork for opaque objects)"""
    r = m.w.has_attr(m, st, o, name)
    if r is not None:
        return r
    if o[0] == "t":
        t = m.typ(st, o)
        if isinstance(t, str) and hasattr(_bi, t):
            return hasattr(getattr(_bi, t), name)
        return m.ask(st, T("hasattr", o, K(name)))
    if o[0] == "ext":
        if o[1] in CSV_ATTRS:
            return ext_attr(o, name)[0] == "k" or name.startswith("__")
        if o[1].startswith(BI) and hasattr(_bi, o[1][9:]):
            return hasattr(getattr(_bi, o[1][9:]), name)
        return m.choose(st, "%s has attribute %s" % (o[1], name), [True, False])
    if o[0] == "k":
        return hasattr(o[2], name)
    if o[0] == "r":
        ob = st.get(o)
        if ob["kind"] in ("inst", "exc"):
            if name in ob["attrs"] or m.lookup_class_attr(st, ob["cls"], name) is not None:
                return True
            for c in m.mro(st, ob["cls"]):
                if c[0] == "ext" and (m.w.ext_class_attr(m, st, c[1], name, o) or ext_class_attr(m, st, c[1], name, o)) is not None:
                    return True
            return False
        if ob["kind"] == "class":
            if m.lookup_class_attr(st, o, name) is not None or name in ("__name__", "__mro__"):
                return True
            for c in ob["mro"]:
                if c[0] == "ext" and (m.w.ext_class_attr(m, st, c[1], name, None) or ext_class_attr(m, st, c[1], name, None)) is not None:
                    return True
            return False
    try:
        get_attr(m, st, o, name)
        return True
    except PyRaise:
        return False
    except Pushed:
        raise Unsupported("hasattr running code")


def with_methods(m, st, mgr):
    if mgr[0] == "r" and st.get(mgr)["kind"] == "inst":
        o = st.get(mgr)
        e = m.lookup_class_attr(st, o["cls"], "__enter__")
        x = m.lookup_class_attr(st, o["cls"], "__exit__")
        if e is not None and x is not None:
            return ("bm", e, mgr), ("bm", x, mgr)
        if m.has_ext_base(st, o["cls"]):
            return ("ebm", mgr, "__enter__"), ("ebm", mgr, "__exit__")
        m.throw(st, "TypeError", "object does not support the context manager protocol")
    if mgr[0] == "k":
        m.throw(st, "TypeError", "object does not support the context manager protocol")
    return ("ebm", mgr, "__enter__"), ("ebm", mgr, "__exit__")


# ------------------------------------------------------------------- classes
def c3(m, st, bases):
    seqs = [list(m.mro(st, b)) for b in bases] + [list(bases)]
    out = []
    while any(seqs):
        for s in seqs:
            if s and not any(s[0] in t[1:] for t in seqs):
                c = s[0]
                break
        else:
            raise Unsupported("inconsistent mro")
        out.append(c)
        for s in seqs:
            if s and s[0] == c:
                s.pop(0)
    return out


def make_class(m, st, name, bases, ns, cell):
    """finishes a class statement: ns is the namespace object"""
    attrs = dict(st.get(ns)["attrs"])
    kw = ()
    cc = attrs.pop("__classcell__", None)
    return new_class(m, st, name, bases, attrs, cc if cc is not None and cc[0] == "r" else cell)


def new_class(m, st, name, bases, attrs, cell=None):
    exp = []
    for b in bases:
        if b[0] == "ext":
            exp.append(b)
        elif b[0] == "r" and st.get(b)["kind"] == "class":
            exp.append(b)
        else:
            raise Unsupported("base class %r" % (b[:2],))
    if not exp:
        exp = [("ext", "builtins.object")]
    mro = []
    c = st.new("class", name=name, bases=tuple(exp), mro=(), attrs=attrs, members=None, fields=None)
    rest = c3(m, st, exp)
    full = []
    for x in rest:
        full.append(x)
    # external parents
    if ("ext", "builtins.object") not in full:
        full.append(("ext", "builtins.object"))
    st.upd(c, mro=(c,) + tuple(full), module=kval(attrs["__module__"]) if "__module__" in attrs and is_k(attrs["__module__"]) else "")
    extn = [x[1] for x in full if x[0] == "ext"]
    if "enum.Enum" in extn or "enum.IntEnum" in extn or "enum.StrEnum" in extn:
        mem = []
        mix = tuple(n[9:] for n in extn if n in ("builtins.str", "builtins.int"))
        if "enum.IntEnum" in extn:
            mix += ("int",)
        if "enum.StrEnum" in extn:
            mix += ("str",)
        a2 = dict(attrs)
        for n, v in attrs.items():
            if n.startswith("_") or v[0] not in ("k", "tup"):
                continue
            i = st.new("inst", cls=c, attrs={"value": v, "name": K(n)}, enum=mix or ("plain",))
            a2[n] = i
            mem.append(i)
        if mem:
            st.upd(c, attrs=a2, members=tuple(mem))
    if "typing.NamedTuple" in extn:
        ann = attrs.get("__annotations__")
        fields = tuple(kval(s[1]) for s in st.get(ann)["segs"]) if ann else ()
        defaults = {f: attrs[f] for f in fields if f in attrs}
        a2 = {n: v for n, v in attrs.items() if n not in fields}
        st.upd(c, attrs=a2, fields=fields, defaults=defaults, mro=(c, ("ext", "builtins.tuple"), ("ext", "builtins.object")))
    if cell is not None:
        st.upd(cell, v=c)
    for n, v in attrs.items():
        if v[0] == "r" and st.get(v)["kind"] == "inst":
            sn = m.lookup_class_attr(st, st.get(v)["cls"], "__set_name__")
            if sn is not None:
                raise Unsupported("__set_name__")
    m.w.on_class(m, st, c)
    return c


def instantiate_class(m, st, cls, args, kw):
    o = st.get(cls)
    if o.get("members") is not None:
        x = m.resolve(st, args[0])
        if x in o["members"]:
            return x
        if x[0] == "r" and st.get(x)["kind"] == "inst" and st.get(x).get("enum"):
            x = st.get(x)["attrs"]["value"]
        for mb in o["members"]:
            v = st.get(mb)["attrs"]["value"]
            if eq_ask(m, st, v, x):
                return mb
        raise PyRaise(m.new_exc(st, "ValueError", T("strof", freeze(m, st, x))))
    names = [n for n in m.exc_names(st, cls)]
    if "BaseException" in names:
        e = st.new("exc", cls=cls, args=tuple(args), attrs={}, unknown=False)
        f = m.lookup_class_attr(st, cls, "__init__")
        if f is not None:
            return m.call_with_ret(st, f, [e] + list(args), kw, ("inst", e))
        return e
    new = m.lookup_class_attr(st, cls, "__new__")
    if new is not None:
        raise Unsupported("__new__ of %s" % o["name"])
    if o.get("fields") is not None and not o.get("dataclass"):
        return make_record(m, st, cls, o["fields"], o.get("defaults", {}), args, kw, fields=o["fields"])
    r = m.w.instantiate(m, st, cls, args, kw)
    if r is not None:
        return r
    dc = [st.get(c) for c in o["mro"] if c[0] == "r" and st.get(c).get("dataclass")]
    f = m.lookup_class_attr(st, cls, "__init__")
    if dc and f is None:
        d = dc[0]
        inst = make_record(m, st, cls, d["dcfields"], d["defaults"], args, kw)
        post = m.lookup_class_attr(st, cls, "__post_init__")
        if post is not None:
            return m.call_with_ret(st, post, [inst], {}, ("inst", inst))
        return inst
    inst = st.new("inst", cls=cls, attrs={})
    if f is None:
        eb = [c[1] for c in o["mro"] if c[0] == "ext" and c[1] not in ("builtins.object",)]
        if eb:
            r = m.w.ext_init(m, st, eb[0], inst, args, kw)
        elif args or kw:
            m.throw(st, "TypeError", "%s() takes no arguments" % o["name"])
        return inst
    return m.call_with_ret(st, f, [inst] + list(args), kw, ("inst", inst))


def make_record(m, st, cls, names, defaults, args, kw, fields=None):
    a = {}
    if len(args) > len(names):
        m.throw(st, "TypeError", "too many arguments")
    for n, v in zip(names, args):
        a[n] = v
    for n, v in kw.items():
        if n not in names or n in a:
            m.throw(st, "TypeError", "unexpected keyword argument '%s'" % n)
        a[n] = v
    for n in names:
        if n not in a:
            if n in defaults:
                d = defaults[n]
                if d[0] == "factory":
                    if d[1] in (("ext", "builtins.list"), ("ext", "builtins.dict"), ("ext", "builtins.set")):
                        d = st.new(d[1][1][9:], segs=())
                    else:
                        raise Unsupported("default factory")
                a[n] = d
            else:
                m.throw(st, "TypeError", "missing argument '%s'" % n)
    extra = {}
    if fields is not None:
        extra["fields"] = tuple(names)
    else:
        extra["dataclass"] = True
    return st.new("inst", cls=cls, attrs=a, **extra)


def make_exception(m, st, e):
    if e[0] == "ext":
        return m.new_exc(st, e)
    if e[0] == "r":
        o = st.get(e)
        if o["kind"] == "exc":
            return e
        if o["kind"] == "class":
            if "BaseException" in m.exc_names(st, e):
                f = m.lookup_class_attr(st, e, "__init__")
                if f is not None and st.get(f)["code"].argcount > 1:
                    raise Unsupported("raising a class with arguments")
                return st.new("exc", cls=e, args=(), attrs={}, unknown=False)
    m.throw(st, "TypeError", "exceptions must derive from BaseException")


# ---------------------------------------------------------------- calls
def bind_star(m, st, o, args, kw, skw):
    r = m.w.bind_star(m, st, o, args, kw, skw)
    if r is not None:
        return r
    raise Unsupported("call of %s with an unknown number of arguments" % o["code"].qualname)


def call_opaque(m, st, f, args, kw):
    f2 = m.resolve(st, f)
    if f2 != f:
        return m.call(st, f2, args, kw)
    r = m.w.call_opaque(m, st, f, args, kw)
    if r is not None:
        return r
    if f[1] == "attr":
        return call_method(m, st, f[2], kval(f[3]), args, kw)
    return default_result(m, st, ("call", m.generic(f)), f, args, kw)


def default_result(m, st, desc, f, args, kw):
    """an unknown call: any value, any exception"""
    m.w.unknown_call(m, st, f, args, kw)
    return st.fresh(desc, None)


def arg_terms(m, st, args, kw):
    return tuple(freeze(m, st, a) for a in args) + tuple(("kw", n, freeze(m, st, v)) for n, v in sorted(kw.items()))


def call_object(m, st, f, args, kw):
    o = st.get(f)
    k = o["kind"]
    if k == "cached":
        return m.w.cached_call(m, st, f, o, args, kw)
    if k in ("classmethod", "staticmethod"):
        return m.call(st, o["func"], args, kw)
    r = m.w.call_object(m, st, f, args, kw)
    if r is not None:
        return r
    m.throw(st, "TypeError", "'%s' object is not callable" % k)


def kwget(args, kw, i, name, default):
    if i is not None and len(args) > i:
        return args[i]
    return kw.get(name, default)


def call_method(m, st, recv, name, args, kw):
    if recv[0] != "super":
        r = m.w.call_method(m, st, recv, name, args, kw)
        if r is not None:
            return r
    if recv[0] == "super":
        return super_method(m, st, recv, name, args, kw)
    if recv[0] == "t":
        r2 = m.resolve(st, recv)
        if r2 != recv:
            return call_method(m, st, r2, name, args, kw)
    h = recv[0]
    args = [m.resolve(st, a) if a[0] == "t" else a for a in args]
    t = m.typ(st, recv)
    if h == "k" or (h == "t" and t in ("str", "bytes")):
        return str_method(m, st, recv, name, args, kw)
    if h == "tup":
        if name == "index" or name == "count":
            if name == "count":
                return K(sum(1 for x in recv[1] if eq_ask(m, st, x, args[0])))
            for i, x in enumerate(recv[1]):
                if eq_ask(m, st, x, args[0]):
                    return K(i)
            m.throw(st, "ValueError", "tuple.index(x): x not in tuple")
        return generic_dunder(m, st, recv, name, args)
    if h == "r":
        o = st.get(recv)
        k = o["kind"]
        if k in ("list", "deque", "tuple"):
            return list_method(m, st, recv, o, name, args, kw)
        if k == "dict":
            return dict_method(m, st, recv, o, name, args, kw)
        if k in ("set", "frozenset"):
            return set_method(m, st, recv, o, name, args, kw)
        if k == "gen":
            return gen_method(m, st, recv, o, name, args, kw)
        if k in ("iter", "zip", "mapit", "enum"):
            if name == "__iter__":
                return recv
            if name == "__next__":
                return bi_next(m, st, [recv], {})
        if k == "property":
            n = dict(setter="fset", getter="fget", deleter="fdel")[name]
            new = dict(fget=o["fget"], fset=o["fset"], fdel=o.get("fdel", NONE))
            new[n] = args[0]
            return st.new("property", **new)
        if k == "cached":
            if name == "cache_clear":
                m.w.cache_cleared(m, st, recv)
                return NONE
            if name == "__get__":
                return ("bm", recv, args[0])
            return st.fresh(("cache info",), None)
        if k == "func" and name == "__get__":
            return ("bm", recv, args[0])
        if k == "exc":
            if name == "with_traceback":
                return recv
            if name == "__init__":
                st.upd(recv, args=tuple(args))
                return NONE
        if k == "inst":
            if name == "__init__":
                return NONE
            if name in ("__eq__", "__ne__"):
                return K((recv == args[0]) == (name == "__eq__"))
            if name == "__hash__":
                return T("hash", freeze(m, st, recv))
            if name in ("__repr__", "__str__"):
                return T("strof", freeze(m, st, recv))
    if h == "t":
        if t == "dict":
            r = opaque_dict_method(m, st, recv, name, args, kw)
            if r is not None:
                return r
        if t in ("list", "tuple", "set"):
            r = opaque_seq_method(m, st, recv, name, args, kw)
            if r is not None:
                return r
    return m.w.method(m, st, recv, name, args, kw)


def generic_dunder(m, st, recv, name, args):
    if name == "__len__":
        return length(m, st, recv)
    if name == "__getitem__":
        return subscr(m, st, recv, args[0])
    if name == "__contains__":
        return contains(m, st, args[0], recv, False)
    if name == "__iter__":
        return get_iter(m, st, recv)
    if name == "__eq__":
        return bool_val(m, equal(m, st, recv, args[0]))
    if name == "__setitem__":
        store_subscr(m, st, recv, args[0], args[1])
        return NONE
    if name == "__delitem__":
        delete_subscr(m, st, recv, args[0])
        return NONE
    raise Unsupported("method %s" % name)


def super_method(m, st, recv, name, args, kw):
    cname, self_ = recv[1], recv[2]
    r = m.w.super_call(m, st, cname, self_, name, args, kw)
    if r is not None:
        return r
    if name == "__init__":
        if self_[0] == "r" and st.get(self_)["kind"] == "exc":
            st.upd(self_, args=tuple(args))
        return NONE
    if name == "__setattr__":
        a = dict(st.get(self_)["attrs"])
        a[kval(args[0])] = args[1]
        st.upd(self_, attrs=a)
        return NONE
    if name == "__eq__":
        return K(self_ == args[0])
    if name == "__init_subclass__":
        return NONE
    if name in ("__repr__", "__str__"):
        return T("strof", freeze(m, st, self_))
    if name == "__hash__":
        return T("hash", freeze(m, st, self_))
    raise Unsupported("super().%s of %s" % (name, cname))


STR_EMPTY_KEEP = {"strip", "lstrip", "rstrip", "lower", "upper", "casefold", "title", "capitalize", "swapcase"}


def str_method(m, st, recv, name, args, kw):
    if name == "join":
        segs = concrete_segs(m, st, args[0])
        if segs is None:
            return via_list(m, st, ("ebm", recv, "join"), args[0], [], {})
        if exact(segs):
            parts = []
            for i, s in enumerate(segs):
                if i:
                    parts.append(recv)
                x = m.resolve(st, s[1])
                tx = m.typ(st, x)
                if tx not in ("str", None):
                    m.throw(st, "TypeError", "sequence item: expected str instance, %s found" % (tx,))
                parts.append(x)
            return concat(m, st, parts)
        return T("str.join", recv, ("F", "segs", tuple(s if s[0] == "v" else tuple(freeze(m, st, x) if i else x for i, x in enumerate(s)) for s in segs)))
    if name == "format" and recv[0] == "k":
        return str_format(m, st, recv, args, kw)
    conc = recv[0] == "k" and all(const_deep(m, st, a) is not None for a in args) and all(const_deep(m, st, a) is not None for a in kw.values())
    if conc:
        ca = [const_deep(m, st, a)[0] for a in args]
        ck = {n: const_deep(m, st, a)[0] for n, a in kw.items()}
        try:
            r = getattr(recv[2], name)(*ca, **ck)
        except Exception as e:
            m.throw(st, type(e).__name__, str(e))
        if isinstance(r, list):
            return st.new("list", segs=tuple(("i", K(x)) for x in r))
        return K(r)
    if recv[0] == "k" and isinstance(recv[2], dict):
        raise Unsupported("constant dict")
    for a in args:
        if m.typ(st, a) == "NoneType" and name in ("startswith", "endswith", "replace", "count", "find"):
            m.throw(st, "TypeError", "must be str, not None")
    if name == "__contains__":
        return contains(m, st, args[0], recv, False)
    if name == "__len__":
        return length(m, st, recv)
    if name == "__getitem__":
        return subscr(m, st, recv, args[0])
    if name == "__eq__":
        return bool_val(m, equal(m, st, recv, args[0]))
    r = m.w.str_method(m, st, recv, name, args, kw)
    if r is not None:
        return r
    if m.typ(st, recv) == "bytes":
        if name == "decode":
            m.w.unknown_call(m, st, ("ext", "bytes.decode"), args, kw)
            return st.fresh(("decoded",), "str")
        return T("bytes." + name, freeze(m, st, recv), *arg_terms(m, st, args, kw))
    if name not in STR_METHODS:
        if m.typ(st, recv) == "str":
            attr_error(m, st, recv, name)
        return T("m." + name, freeze(m, st, recv), *arg_terms(m, st, args, kw))
    if name in ("startswith", "endswith") and args and args[0][0] == "tup":
        return K(any(truth(m, st, str_method(m, st, recv, name, [x], {})) for x in args[0][1]))
    if name in ("startswith", "endswith") and len(args) == 1:
        x = args[0]
        if x == K(""):
            return TRUE
        if recv[0] == "t" and m.decide(st, m.mk_eq_raw(recv, K(""))) is True and x[0] == "k":
            return FALSE
        lo, hi = m.bounds(st, T("len", recv)) if recv[0] == "t" else (len(recv[2]),) * 2
        if lo == hi == 1 and x[0] == "k" and len(x[2]) == 1:
            return bool_val(m, equal(m, st, recv, x))
        t = T("str." + name, recv, x)
        d = m.decide(st, t)
        return t if d is None else K(d)
    if name in ("index", "rindex"):
        f = T("str.find", recv, *arg_terms(m, st, args, kw))
        if m.ask(st, m.mk_eq_raw(f, K(-1))):
            m.throw(st, "ValueError", "substring not found")
        return f
    if name in ("partition", "rpartition"):
        t = T("str." + name, recv, *arg_terms(m, st, args, kw))
        return ("tup", tuple(T("item", t, K(i)) for i in range(3)))
    if name in ("split", "rsplit") and args and args[0] == K(""):
        m.throw(st, "ValueError", "empty separator")
    if name in ("split", "rsplit") and args and m.typ(st, args[0]) == "str" and args[0][0] == "t":
        if m.ask(st, m.mk_eq_raw(args[0], K(""))):
            m.throw(st, "ValueError", "empty separator")
    if name == "encode":
        m.w.unknown_call(m, st, ("ext", "str.encode"), [recv] + list(args), kw)
    t = T("str." + name, recv, *arg_terms(m, st, args, kw))
    if STR_METHODS[name] == "list":
        return st.new("list", segs=(("s", t),))
    if STR_METHODS[name] == "bool":
        d = m.decide(st, t)
        if d is not None:
            return K(d)
    return t


def str_format(m, st, recv, args, kw):
    import string
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(recv[2]):
        parts.append(K(lit))
        if field is None:
            continue
        if field == "":
            field = str(auto)
            auto += 1
        base = field.split(".")[0].split("[")[0]
        if base != field or (spec and "{" in spec):
            return T("fmt", recv, *arg_terms(m, st, args, kw))
        if base.isdigit():
            if int(base) >= len(args):
                m.throw(st, "IndexError", "Replacement index %s out of range for positional args tuple" % base)
            v = args[int(base)]
        else:
            if base not in kw:
                raise PyRaise(m.new_exc(st, "KeyError", K(base)))
            v = kw[base]
        parts.append(format_value(m, st, v, {"r": 2, "s": 1, "a": 3}.get(conv, 0), K(spec) if spec else None))
    return concat(m, st, parts)


def const_deep(m, st, v):
    """(python value,) when v is a constant all through, else None"""
    if v[0] == "k":
        return (v[2],)
    if v[0] == "tup":
        out = []
        for x in v[1]:
            c = const_deep(m, st, x)
            if c is None:
                return None
            out.append(c[0])
        return (tuple(out),)
    if v[0] == "r":
        o = st.get(v)
        if o["kind"] in ("list", "set", "tuple", "frozenset") and exact(o["segs"]):
            out = []
            for s in o["segs"]:
                c = const_deep(m, st, s[1])
                if c is None:
                    return None
                out.append(c[0])
            try:
                return ({"list": list, "set": set, "tuple": tuple, "frozenset": frozenset}[o["kind"]](out),)
            except TypeError:
                return None
        if o["kind"] == "dict" and exact(o["segs"]):
            d = {}
            for s in o["segs"]:
                a, b = const_deep(m, st, s[1]), const_deep(m, st, s[2])
                if a is None or b is None:
                    return None
                d[a[0]] = b[0]
            return (d,)
    return None


def from_python(m, st, x):
    if isinstance(x, list):
        return st.new("list", segs=tuple(("i", from_python(m, st, y)) for y in x))
    if isinstance(x, tuple):
        return ("tup", tuple(from_python(m, st, y) for y in x))
    if isinstance(x, (set, frozenset)):
        return st.new("set" if isinstance(x, set) else "frozenset", segs=tuple(("i", from_python(m, st, y)) for y in sorted(x, key=repr)))
    if isinstance(x, dict):
        return st.new("dict", segs=tuple(("i", from_python(m, st, a), from_python(m, st, b)) for a, b in x.items()))
    return K(x)


MUTATORS = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "update", "setdefault", "popitem", "add", "discard",
            "appendleft", "popleft", "extendleft", "intersection_update", "difference_update", "move_to_end", "subtract"}


def list_method(m, st, recv, o, name, args, kw):
    segs = o["segs"]
    if name in MUTATORS:
        if not (name in ("pop", "remove") and not segs):
            m.w.on_mutate(m, st, recv, name, tuple(args))
        segs = st.get(recv)["segs"]
    if name == "append":
        st.upd(recv, segs=segs + (("i", args[0]),))
        return NONE
    if name == "appendleft":
        st.upd(recv, segs=(("i", args[0]),) + segs)
        return NONE
    if name == "extend":
        c = concrete_segs(m, st, args[0])
        if c is None:
            pre = m.prog.prelude_names(st)
            return m.call(st, pre["_vp_extend"], [recv, args[0]], {})
        st.upd(recv, segs=segs + c)
        return NONE
    if name == "insert":
        i = m.resolve(st, args[0])
        if is_int_k(i) and (exact(segs) or i[2] == 0):
            l = list(segs)
            l.insert(i[2], ("i", args[1]))
            st.upd(recv, segs=tuple(l))
        else:
            st.upd(recv, segs=m.summarise(st, segs + (("i", args[1]),)))
        return NONE
    if name in ("pop", "popleft"):
        i = m.resolve(st, args[0]) if args else K(-1 if name == "pop" else 0)
        if not segs:
            m.throw(st, "IndexError", "pop from empty list")
        if is_int_k(i):
            j = i[2]
            if exact(segs):
                l = list(segs)
                try:
                    x = l.pop(j)
                except IndexError:
                    m.throw(st, "IndexError", "pop index out of range")
                st.upd(recv, segs=tuple(l))
                return x[1]
            if j == -1 and segs[-1][0] == "i":
                st.upd(recv, segs=segs[:-1])
                return segs[-1][1]
            if j == 0 and segs[0][0] == "i":
                st.upd(recv, segs=segs[1:])
                return segs[0][1]
        x = pick(m, st, segs, i)
        st.upd(recv, segs=m.summarise(st, segs))
        return x
    if name == "remove":
        for i, s in enumerate(segs):
            if s[0] == "i" and eq_ask(m, st, s[1], args[0]):
                st.upd(recv, segs=segs[:i] + segs[i + 1:])
                return NONE
        if exact(segs):
            m.throw(st, "ValueError", "list.remove(x): x not in list")
        return NONE
    if name == "index":
        for i, s in enumerate(segs):
            if s[0] != "i":
                return st.fresh(("index",), "int")
            if eq_ask(m, st, s[1], args[0]):
                return K(i)
        m.throw(st, "ValueError", "is not in list")
    if name == "count":
        if exact(segs):
            return K(sum(1 for s in segs if eq_ask(m, st, s[1], args[0])))
        return T("count", freeze(m, st, recv), freeze(m, st, args[0]))
    if name == "sort":
        pre = m.prog.prelude_names(st)
        return m.call(st, pre["_vp_list_sort"], [recv], kw)
    if name == "reverse":
        if exact(segs):
            st.upd(recv, segs=tuple(reversed(segs)))
        else:
            st.upd(recv, segs=m.summarise(st, segs))
        return NONE
    if name == "clear":
        st.upd(recv, segs=())
        return NONE
    if name == "copy":
        return st.new("list", segs=segs)
    return generic_dunder(m, st, recv, name, args)


def dict_method(m, st, recv, o, name, args, kw):
    segs = o["segs"]
    if name in MUTATORS:
        m.w.on_mutate(m, st, recv, name, tuple(args))
    if name == "get":
        return dict_get(m, st, recv, args[0], args[1] if len(args) > 1 else NONE)
    if name == "keys":
        return st.new("set", segs=keys_segs(segs), ordered=True)
    if name in ("items", "values"):
        return st.new("list", segs=items_segs(segs, name))
    if name == "pop":
        i = dict_find(m, st, segs, args[0])
        if i is not None:
            st.upd(recv, segs=segs[:i] + segs[i + 1:])
            return segs[i][2]
        return dict_get(m, st, recv, args[0], args[1] if len(args) > 1 else None)
    if name == "update":
        for a in args:
            dict_update(m, st, recv, a)
        for n, v in kw.items():
            dict_set(m, st, recv, K(n), v, quiet=True)
        return NONE
    if name == "setdefault":
        v = dict_get(m, st, recv, args[0], ("missing",))
        if v == ("missing",):
            v = args[1] if len(args) > 1 else NONE
            dict_set(m, st, recv, args[0], v, quiet=True)
        return v
    if name == "clear":
        st.upd(recv, segs=())
        return NONE
    if name == "copy":
        return st.new("dict", **{k: v for k, v in o.items() if k not in ("kind",)})
    if name == "popitem":
        if not segs:
            m.throw(st, "KeyError", "popitem(): dictionary is empty")
        if segs[-1][0] == "i":
            st.upd(recv, segs=segs[:-1])
            return ("tup", segs[-1][1:])
    if name in ("most_common", "elements", "subtract"):
        return st.fresh((name,), None)
    return generic_dunder(m, st, recv, name, args)


def set_method(m, st, recv, o, name, args, kw):
    if name in MUTATORS:
        m.w.on_mutate(m, st, recv, name, tuple(args))
    segs = st.get(recv)["segs"]
    if name == "add":
        set_add(m, st, recv, args[0])
        return NONE
    if name in ("remove", "discard"):
        for i, s in enumerate(segs):
            if s[0] == "i" and eq_ask(m, st, s[1], args[0]):
                st.upd(recv, segs=segs[:i] + segs[i + 1:])
                return NONE
        if name == "remove" and exact(segs):
            raise PyRaise(m.new_exc(st, "KeyError", args[0]))
        return NONE
    if name == "pop":
        if not segs:
            m.throw(st, "KeyError", "pop from an empty set")
        i = m.choose(st, "which member", list(range(len(segs))))
        if len(segs) > 1:
            m.w.set_iterated(m, st, recv, None)
        if segs[i][0] == "i":
            st.upd(recv, segs=segs[:i] + segs[i + 1:])
            return segs[i][1]
        return pick(m, st, segs[i:i + 1], NONE)
    if name == "clear":
        st.upd(recv, segs=())
        return NONE
    if name == "copy":
        return st.new("set", segs=segs)
    ops = {"union": "|", "intersection": "&", "difference": "-", "update": "|", "intersection_update": "&", "difference_update": "-"}
    if name in ops:
        cur = recv if name.endswith("update") else st.new("set", segs=segs)
        for a in args:
            if concrete_peek(m, st, a) is False:
                return via_list(m, st, ("ebm", recv, name), a, args[1:], {})
            r = set_op(m, st, ops[name], cur, a)
            st.upd(cur, segs=st.get(r)["segs"])
        return NONE if name.endswith("update") else cur
    if name in ("issubset", "issuperset", "isdisjoint"):
        other = members(m, st, args[0])
        if other is None:
            return via_list(m, st, ("ebm", recv, name), args[0], [], {})
        a, b = (segs, other) if name != "issuperset" else (other, segs)
        if exact(a):
            if name == "isdisjoint":
                return K(not any(contains_val(m, st, s[1], b) for s in a))
            return K(all(contains_val(m, st, s[1], b) for s in a))
        return T("set." + name, freeze(m, st, recv), freeze(m, st, args[0]))
    return generic_dunder(m, st, recv, name, args)


def concrete_peek(m, st, v):
    """False when walking v needs to run code"""
    if v[0] == "r":
        k = st.get(v)["kind"]
        if k in ("gen", "mapit", "inst", "xobj", "enum"):
            return False
        if k == "zip":
            return all(st.get(p)["kind"] == "iter" and exact(st.get(p)["segs"]) for p in st.get(v)["parts"])
    return True


def gen_method(m, st, g, o, name, args, kw):
    if name == "__iter__":
        return g
    if name in ("__next__", "send"):
        if o["frame"] is None:
            if o["state"] == "running":
                m.throw(st, "ValueError", "generator already executing")
            m.throw(st, "StopIteration")
        m.resume(st, g, args[0] if args else NONE, ("push",))
        raise Pushed()
    if name == "close":
        return close_gen(m, st, g)
    if name == "throw":
        e = make_exception(m, st, args[0])
        return throw_gen(m, st, g, e, ("push",))
    raise Unsupported("generator method " + name)


def close_gen(m, st, g):
    o = st.get(g)
    if o["frame"] is None:
        return NONE
    if o["state"] == "start":
        st.upd(g, frame=None, state="done")
        return NONE
    e = m.new_exc(st, "GeneratorExit")
    return throw_gen(m, st, g, e, ("close",))


def throw_gen(m, st, g, e, ret):
    o = st.get(g)
    f = o["frame"]
    if f is None:
        raise PyRaise(e)
    # a generator delegating to another one passes the exception on
    f = f.copy()
    f.ret = ret
    st.upd(g, frame=None, state="running")
    st.own_top()
    op = f.code.ops[f.pc] if f.pc < len(f.code.ops) else None
    st.frames.append(f)
    inner = None
    if f.pc > 0:
        # suspended at YIELD_VALUE inside a yield-from loop: the inner iterator is on the stack
        nxt = [x[0] for x in f.code.ops[max(0, f.pc - 2):f.pc]]
        if nxt and nxt[0] == "SEND" and f.stack:
            inner = f.stack[-1]
    if inner is not None and inner[0] == "r":
        io = st.get(inner)
        if io["kind"] == "gen" and io["frame"] is not None:
            if "GeneratorExit" in m.exc_names(st, st.get(e)["cls"]):
                r = None
                f.stack.append(NONE)
                fi = io["frame"].copy()
                fi.stack.append(NONE)
                fi.ret = ("closethen", e)
                st.upd(inner, frame=None, state="running")
                st.frames.append(fi)
                raise PyRaise(m.new_exc(st, "GeneratorExit"))
        else:
            m.w.close_iter(m, st, inner)
    f.pc = f.pc if f.pc > 0 else 1
    # the value that would have been sent
    f.stack.append(NONE)
    raise PyRaise(e)


def opaque_dict_method(m, st, recv, name, args, kw):
    if name in MUTATORS:
        m.w.on_mutate(m, st, recv, name, tuple(args))
        return st.fresh((name,), None) if name in ("pop", "popitem", "setdefault") else NONE
    if name == "get":
        d = args[1] if len(args) > 1 else NONE
        if m.ask(st, T("in", freeze(m, st, args[0]), recv)):
            return m.w.mapping_value(m, st, recv, args[0])
        return d
    if name == "keys":
        return st.new("set", segs=(("s", recv),), ordered=True)
    if name in ("items", "values"):
        return st.new("list", segs=(("s", T(name, recv)),))
    if name == "copy":
        return st.new("dict", segs=(("s", recv),))
    return generic_dunder(m, st, recv, name, args)


def opaque_seq_method(m, st, recv, name, args, kw):
    if name in MUTATORS:
        m.w.on_mutate(m, st, recv, name, tuple(args))
        return st.fresh((name,), None) if name == "pop" else NONE
    if name == "copy":
        return st.new(m.typ(st, recv), segs=(("s", recv),))
    if name in ("index", "count"):
        if name == "index" and not m.ask(st, T("in", freeze(m, st, args[0]), recv)):
            m.throw(st, "ValueError", "not in list")
        return T("seq." + name, recv, freeze(m, st, args[0]))
    if name.startswith("__"):
        return generic_dunder(m, st, recv, name, args)
    return None


# -------------------------------------------------------------- builtins
def call_ext(m, st, name, args, kw):
    r = m.w.ext_call(m, st, name, args, kw)
    if r is not None:
        return r
    f = BUILTINS.get(name)
    if f is None and name.startswith(BI):
        f = BUILTINS.get(name[9:])
    if f is not None:
        return f(m, st, args, kw)
    # an exception class
    if is_ext_class(name) and ("BaseException" in m.ext_bases(name) or name.split(".")[-1] in ("Error",)):
        return m.new_exc(st, ("ext", name), *args)
    pre = m.prog.prelude_names(st)
    short = name[9:] if name.startswith(BI) else name
    alt = PRELUDE_EXT.get(short)
    if alt:
        return m.call(st, pre[alt], args, kw)
    # unbound method of a builtin type
    parts = name.split(".")
    if len(parts) == 3 and parts[0] == "builtins" and args:
        return call_method(m, st, args[0], parts[2], list(args[1:]), kw)
    if name in PURE:
        fa = tuple(freeze(m, st, m.resolve(st, a)) for a in args) + tuple(("kw", n, freeze(m, st, v)) for n, v in sorted(kw.items()))
        r = None
        if not kw and all(a[0] == "k" for a in fa):
            r = fold(name, fa)
        m.w.pure_call(m, st, name, args, kw)
        return r or ("t", name) + fa
    return m.w.ext_default(m, st, name, args, kw)


PRELUDE_EXT = {"itertools.product": "_vp_product", "itertools.zip_longest": "_vp_zip_longest", "itertools.chain": "_vp_chain",
               "itertools.chain.from_iterable": "_vp_chain_from", "itertools.combinations": "_vp_combinations", "itertools.islice": "_vp_islice",
               "itertools.tee": "_vp_tee", "itertools.repeat": "_vp_repeat", "itertools.count": "_vp_count", "itertools.starmap": "_vp_starmap",
               "itertools.takewhile": "_vp_takewhile", "itertools.dropwhile": "_vp_dropwhile", "itertools.pairwise": "_vp_pairwise",
               "itertools.accumulate": "_vp_accumulate", "itertools.groupby": "_vp_groupby", "functools.reduce": "_vp_reduce", "filter": "_vp_filter",
               "any": "_vp_any", "all": "_vp_all", "contextlib.contextmanager": "_vp_contextmanager", "contextlib.suppress": "_vp_suppress",
               "contextlib.closing": "_vp_closing", "contextlib.ExitStack": "_vp_ExitStack", "contextlib.nullcontext": "_vp_nullcontext",
               "functools.total_ordering": "_vp_total_ordering", "itertools.filterfalse": "_vp_filterfalse", "itertools.cycle": "_vp_cycle",
               "collections.OrderedDict.fromkeys": "_vp_fromkeys", "dict.fromkeys": "_vp_fromkeys", "itertools.permutations": "_vp_permutations"}


def bi_len(m, st, args, kw):
    return length(m, st, args[0])


def bi_iter(m, st, args, kw):
    if len(args) == 2:
        pre = m.prog.prelude_names(st)
        return m.call(st, pre["_vp_iter_sentinel"], args, kw)
    return get_iter(m, st, args[0])


def bi_next(m, st, args, kw):
    it = args[0]
    d = args[1] if len(args) > 1 else None
    if it[0] == "r":
        o = st.get(it)
        k = o["kind"]
        if k == "gen":
            if o["frame"] is None:
                if d is not None:
                    return d
                m.throw(st, "StopIteration")
            m.resume(st, it, NONE, ("nextdef", d) if d is not None else ("push",))
            raise Pushed()
        if k == "inst" or (k == "mapit") or k == "zip" or k == "enum":
            if d is not None and k == "inst":
                pre = m.prog.prelude_names(st)
                return m.call(st, pre["_vp_next_default"], [it, d], {})
            if k == "inst" and m.lookup_class_attr(st, o["cls"], "__next__") is None and m.w.next_of_known(m, st, it) is False:
                m.throw(st, "TypeError", "object is not an iterator")
        if k in ("list", "dict", "set", "tuple"):
            m.throw(st, "TypeError", "'%s' object is not an iterator" % k)
    elif it[0] in ("k", "tup"):
        m.throw(st, "TypeError", "object is not an iterator")
    v = next_of(m, st, it, ("push",))
    if v is None:
        if d is not None:
            return d
        m.throw(st, "StopIteration")
    return v


def collect(kind):
    def f(m, st, args, kw):
        if not args:
            return st.new(kind, segs=()) if kind != "tuple" else ("tup", ())
        v = args[0]
        segs = (members if kind in ("set", "frozenset") else concrete_segs)(m, st, v)
        if segs is None:
            r = m.w.collect(m, st, kind, v)
            if r is not None:
                return r
            if kind == "list":
                pre = m.prog.prelude_names(st)
                return m.call(st, pre["_vp_list"], [v], {})
            return via_list(m, st, ("ext", BI + kind), v, [], {})
        if kind == "tuple":
            if exact(segs):
                return ("tup", tuple(s[1] for s in segs))
            return st.new("tuple", segs=segs)
        if kind in ("set", "frozenset"):
            if all(s[0] == "i" for s in segs):
                r = st.new(kind, segs=())
                for s in segs:
                    set_add(m, st, r, s[1])
                return r
            return st.new(kind, segs=segs)
        src = v[0] == "r" and st.get(v)["kind"] in ("set", "frozenset") and not st.get(v).get("ordered") and len(segs) > 1
        l = st.new(kind, segs=segs)
        if v[0] == "r" and st.get(v)["kind"] in ("set", "frozenset") and not st.get(v).get("ordered"):
            m.w.set_iterated(m, st, v, l)
        return l
    return f


def bi_dict(m, st, args, kw):
    d = st.new("dict", segs=())
    if args:
        if concrete_peek(m, st, args[0]) is False:
            return via_list(m, st, ("ext", "builtins.dict"), args[0], [], kw)
        v = args[0]
        if v[0] == "r" and st.get(v)["kind"] in ("zip", "iter", "list", "set", "tuple"):
            segs = concrete_segs(m, st, v)
            if segs is None:
                return via_list(m, st, ("ext", "builtins.dict"), v, [], kw)
            if not exact(segs):
                st.upd(d, segs=(("s", T("dictof", ("F", "segs", segs))),))
            else:
                for s in segs:
                    it = simple_items(m, st, s[1])
                    if it is None and s[1][0] == "t":
                        it = unpack(m, st, s[1], 2)
                    if it is None or len(it) != 2:
                        m.throw(st, "ValueError", "dictionary update sequence element has wrong length")
                    dict_set(m, st, d, it[0], it[1], quiet=True)
        else:
            dict_update(m, st, d, v)
    for n, v in kw.items():
        if n == "**":
            st.upd(d, segs=st.get(d)["segs"] + tuple(v[1]))
        else:
            dict_set(m, st, d, K(n), v, quiet=True)
    return d


def bi_zip(m, st, args, kw):
    parts = []
    stars = [a for a in args if a[0] == "star"]
    if stars:
        r = m.w.zip_star(m, st, args)
        if r is not None:
            return r
        return st.new("iter", segs=(("s", T("zip*", *[freeze(m, st, a[1][1]) if a[0] == "star" and a[1][0] == "s" else T("snap", a[1:]) for a in args])),))
    for a in args:
        it = native_iter(m, st, a)
        if it is None:
            pre = m.prog.prelude_names(st)
            return m.call(st, pre["_vp_zip"], args, {})
        parts.append(it)
    return st.new("zip", parts=tuple(parts))


def bi_map(m, st, args, kw):
    f = args[0]
    if len(args) == 2:
        it = native_iter(m, st, args[1])
        if it is not None:
            return st.new("mapit", f=f, it=it)
    pre = m.prog.prelude_names(st)
    return m.call(st, pre["_vp_map"], args, kw)


def bi_enumerate(m, st, args, kw):
    it = native_iter(m, st, args[0])
    start = kwget(args, kw, 1, "start", K(0))
    if it is None:
        pre = m.prog.prelude_names(st)
        return m.call(st, pre["_vp_enumerate"], [args[0], start], {})
    return st.new("enum", it=it, n=start)


def bi_range(m, st, args, kw):
    a = [m.resolve(st, x) for x in args]
    if all(is_int_k(x) for x in a):
        r = range(*[x[2] for x in a])
        if len(r) <= max(64, min(m.MAX_LIST, 2000)):
            return st.new("list", segs=tuple(("i", K(i)) for i in r), isrange=True)
        return T("range", *a)
    for x in a:
        if m.typ(st, x) in ("str", "float", "NoneType", "list"):
            m.throw(st, "TypeError", "'%s' object cannot be interpreted as an integer" % m.typ(st, x))
    if len(a) == 2 and a[0] == K(0):
        a = a[1:]
    return T("range", *a)


def bi_reversed(m, st, args, kw):
    segs = concrete_segs(m, st, args[0])
    if segs is None:
        raise Unsupported("reversed()")
    if exact(segs):
        return st.new("iter", segs=tuple(reversed(segs)))
    return st.new("iter", segs=tuple(("s", T("reversed", s[1])) if s[0] == "s" else s for s in reversed(segs)))


def bi_str(m, st, args, kw):
    if not args:
        return K("")
    if len(args) > 1 or kw:
        return st.fresh(("decoded",), "str")
    return str_of(m, st, args[0])


def bi_int(m, st, args, kw):
    if not args:
        return K(0)
    v = m.resolve(st, args[0])
    if v[0] == "k" and all(a[0] == "k" for a in args):
        try:
            return K(int(*[a[2] for a in args]))
        except Exception as e:
            m.throw(st, type(e).__name__, str(e))
    t = m.typ(st, v)
    if t == "int":
        return v
    if t == "bool":
        return T("intof", v)
    if v == NONE or t == "NoneType" or t in ("list", "dict"):
        m.throw(st, "TypeError", "int() argument must be a string or a number")
    if t == "float":
        return T("intof", v)
    if t == "str" or t is None:
        k = m.choose(st, "int() of %s" % show(v), ["ok", "ValueError"] + (["TypeError"] if t is None else []))
        if k != "ok":
            m.throw(st, k, "invalid literal for int()")
    return T("intof", freeze(m, st, v))


def bi_float(m, st, args, kw):
    if not args:
        return K(0.0)
    v = m.resolve(st, args[0])
    if v[0] == "k":
        try:
            return K(float(v[2]))
        except Exception as e:
            m.throw(st, type(e).__name__, str(e))
    t = m.typ(st, v)
    if t == "float":
        return v
    if t == "str" or t is None:
        if m.choose(st, "float() of %s" % show(v), ["ok", "ValueError"]) != "ok":
            m.throw(st, "ValueError", "could not convert string to float")
    if t == "int":
        pass
    return T("floatof", freeze(m, st, v))


def bi_complex(m, st, args, kw):
    v = args[0] if args else K(0)
    if v[0] == "k":
        try:
            complex(v[2])
        except Exception as e:
            m.throw(st, type(e).__name__, str(e))
    elif m.choose(st, "complex() of %s" % show(v), ["ok", "ValueError"]) != "ok":
        m.throw(st, "ValueError", "complex() arg is a malformed string")
    return T("complexof", freeze(m, st, v))


def bi_bool(m, st, args, kw):
    if not args:
        return FALSE
    v = m.resolve(st, args[0])
    if v[0] == "t" and m.typ(st, v) == "bool":
        return v
    return K(truth(m, st, v))


def bi_isinstance(m, st, args, kw):
    return K(isinstance_(m, st, args[0], args[1]))


def bi_issubclass(m, st, args, kw):
    c, w = args
    if w[0] == "tup":
        return K(any(truth(m, st, bi_issubclass(m, st, [c, x], {})) for x in w[1]))
    if c[0] == "t":
        return T("issubclass", c, w)
    if c[0] not in ("ext", "r"):
        m.throw(st, "TypeError", "issubclass() arg 1 must be a class")
    return K(subclass(m, st, c, w))


def bi_hasattr(m, st, args, kw):
    return K(has_attr(m, st, args[0], kval(args[1])))


def bi_getattr(m, st, args, kw):
    n = m.resolve(st, args[1])
    if not is_k(n):
        r = m.w.dynamic_attr(m, st, args[0], n)
        if r is not None:
            return r
        raise Unsupported("getattr with an unknown name")
    if len(args) > 2:
        if not has_attr(m, st, args[0], n[2]):
            return args[2]
    return get_attr(m, st, args[0], n[2])


def bi_setattr(m, st, args, kw):
    n = m.resolve(st, args[1])
    if not is_k(n):
        r = m.w.dynamic_setattr(m, st, args[0], n, args[2])
        if r is not None:
            return r
        raise Unsupported("setattr with an unknown name")
    set_attr(m, st, args[0], n[2], args[2])
    return NONE


def bi_delattr(m, st, args, kw):
    a = dict(st.get(args[0])["attrs"])
    if kval(args[1]) not in a:
        m.throw(st, "AttributeError", kval(args[1]))
    m.w.on_mutate(m, st, args[0], "delete attribute", ())
    del a[kval(args[1])]
    st.upd(args[0], attrs=a)
    return NONE


def bi_type(m, st, args, kw):
    if len(args) == 3:
        name = m.resolve(st, args[0])
        d = st.get(args[2])
        attrs = {}
        for s in d["segs"]:
            if s[0] == "i" and is_k(s[1]):
                attrs[s[1][2]] = s[2]
            else:
                attrs["**"] = T("snap", s)
        return new_class(m, st, kval(name) if is_k(name) else "?", list(args[1][1]), attrs)
    t = type_of(m, st, args[0])
    if t is None:
        return T("typeof", args[0])
    return t


def bi_print(m, st, args, kw):
    m.w.printed(m, st, [freeze_print(m, st, a) for a in args], {k: v if k == "file" else freeze(m, st, v) for k, v in kw.items()})
    return NONE


def freeze_print(m, st, a):
    if a[0] == "star":
        return ("F", "star", a[1])
    return freeze(m, st, a)


def bi_repr(m, st, args, kw):
    return repr_of(m, st, args[0])


def bi_hash(m, st, args, kw):
    v = args[0]
    if hashable_check(m, st, v):
        m.throw(st, "TypeError", "unhashable type")
    if v[0] == "r":
        o = st.get(v)
        if o["kind"] == "inst":
            f = m.lookup_class_attr(st, o["cls"], "__hash__")
            if f is not None:
                return m.call(st, f, [v], {})
    return T("hash", freeze(m, st, v))


def bi_id(m, st, args, kw):
    if args[0][0] == "r":
        return T("id", ("F", "object", args[0][1]))
    return T("id", freeze(m, st, args[0]))


def minmax(which):
    def f(m, st, args, kw):
        key = kw.get("key")
        pre = m.prog.prelude_names(st)
        if (key is None or key == NONE) and len(args) == 2:
            a, b = m.resolve(st, args[0]), m.resolve(st, args[1])
            if a[0] == "k" and b[0] == "k":
                try:
                    return K(max(a[2], b[2]) if which == "max" else min(a[2], b[2]))
                except TypeError as e:
                    m.throw(st, "TypeError", str(e))
            r = less(m, st, "<", a, b) if which == "max" else less(m, st, "<", b, a)
            if r[0] == "k":
                return (b if r[2] else a) if which == "max" else (b if r[2] else a)
            r2 = m.w.minmax(m, st, which, a, b)
            if r2 is not None:
                return r2
            return b if m.ask(st, r) else a
        if len(args) == 1:
            v = args[0]
            segs = concrete_segs(m, st, v) if concrete_peek(m, st, v) else None
            if segs is not None and len(segs) == 1 and segs[0][0] == "s" and (key is None or key == NONE):
                t = segs[0][1]
                if "default" not in kw and not m.w.nonempty(m, st, t):
                    if not truth(m, st, st.new("list", segs=segs)):
                        m.throw(st, "ValueError", "%s() arg is an empty sequence" % which)
                elif "default" in kw and not truth(m, st, st.new("list", segs=segs)):
                    return kw["default"]
                return T(which + "of", t)
            if segs is not None:
                args = [st.new("list", segs=segs)]
            return m.call(st, pre["_vp_" + which], args, kw)
        return m.call(st, pre["_vp_" + which], [("tup", tuple(args))], kw)
    return f


def bi_sum(m, st, args, kw):
    v = args[0]
    segs = concrete_segs(m, st, v) if concrete_peek(m, st, v) else None
    if segs is not None and len(segs) == 1 and segs[0][0] == "s":
        return T("sumof", segs[0][1])
    if segs is not None:
        args = [st.new("list", segs=segs)] + list(args[1:])
    pre = m.prog.prelude_names(st)
    return m.call(st, pre["_vp_sum"], args, kw)


def bi_sorted(m, st, args, kw):
    v = args[0]
    segs = (concrete_segs if "key" in kw else members)(m, st, v) if concrete_peek(m, st, v) else None
    r = m.w.sorted(m, st, v, segs, kw)
    if r is not None:
        return r
    pre = m.prog.prelude_names(st)
    if segs is not None and len(segs) == 1 and segs[0][0] == "s":
        return st.new("list", segs=(("s", T("sorted", segs[0][1], *[("kw", n, freeze(m, st, x)) for n, x in sorted(kw.items())])),))
    if segs is not None and not exact(segs):
        return st.new("list", segs=m.summarise(st, segs))
    if segs is not None:
        args = [st.new("list", segs=segs)]
        if not kw and all(s[1][0] == "k" for s in segs):
            try:
                return st.new("list", segs=tuple(("i", x) for x in sorted((s[1] for s in segs), key=lambda x: x[2])))
            except TypeError as e:
                m.throw(st, "TypeError", str(e))
    return m.call(st, pre["_vp_sorted"], args, kw)


def bi_abs(m, st, args, kw):
    v = m.resolve(st, args[0])
    return K(abs(v[2])) if is_k(v) else T("abs", v)


def bi_round(m, st, args, kw):
    if all(is_k(a) for a in args):
        return K(round(*[a[2] for a in args]))
    return T("round", *[freeze(m, st, a) for a in args])


def bi_ord(m, st, args, kw):
    v = m.resolve(st, args[0])
    return K(ord(v[2])) if is_k(v) else T("ord", v)


def bi_chr(m, st, args, kw):
    v = m.resolve(st, args[0])
    return K(chr(v[2])) if is_k(v) else T("chr", v)


def bi_bytes(m, st, args, kw):
    if args and all(is_k(a) for a in args):
        try:
            return K(bytes(*[a[2] for a in args]))
        except Exception as e:
            m.throw(st, type(e).__name__, str(e))
    m.w.unknown_call(m, st, ("ext", "builtins.bytes"), args, kw)
    return T("bytes", *arg_terms(m, st, args, kw))


def bi_callable(m, st, args, kw):
    v = args[0]
    if v[0] in ("ext", "bm", "ebm"):
        return TRUE
    if v[0] == "r":
        o = st.get(v)
        return K(o["kind"] in ("func", "class", "cached", "partial") or (o["kind"] == "inst" and m.lookup_class_attr(st, o["cls"], "__call__") is not None))
    return K(False) if v[0] != "t" else T("callable", v)


def bi_property(m, st, args, kw):
    return st.new("property", fget=kwget(args, kw, 0, "fget", NONE), fset=kwget(args, kw, 1, "fset", NONE), fdel=NONE)


def bi_classmethod(m, st, args, kw):
    return st.new("classmethod", func=args[0])


def bi_staticmethod(m, st, args, kw):
    return st.new("staticmethod", func=args[0])


def bi_super(m, st, args, kw):
    if len(args) == 2:
        return ("superobj", args[0], args[1])
    raise Unsupported("super()")


def bi_build_class(m, st, args, kw):
    """runs the body of a class statement"""
    from .pybc import Frame
    f, name = args[0], kval(args[1])
    bases = []
    for b in args[2:]:
        bases.append(b)
    o = st.get(f)
    ns = st.new("ns", attrs={"__module__": K(o["code"].module), "__qualname__": K(name)})
    loc = [None] * len(o["code"].localsplus)
    m.functions.add((o["code"].module, o["code"].qualname))
    cell = st.new("cell", v=None)
    fr = Frame(o["code"], o["glob"], loc, ns=ns, ret=("class", name, tuple(bases), ns, cell), closure=o["closure"])
    st.own_top()
    st.frames.append(fr)
    raise Pushed()


def bi_lru_cache(m, st, args, kw):
    if len(args) == 1 and args[0][0] in ("r", "bm") and (args[0][0] == "bm" or st.get(args[0])["kind"] in ("func", "partial")):
        return st.new("cached", func=args[0], attrs={})
    return ("ext", "vp.lru_decorator")


def bi_cached(m, st, args, kw):
    return st.new("cached", func=args[0], attrs={})


def bi_partial(m, st, args, kw):
    return st.new("partial", func=args[0], args=tuple(args[1:]), kw=dict(kw), attrs={})


def bi_wraps(m, st, args, kw):
    return ("ext", "vp.identity")


def bi_identity(m, st, args, kw):
    return args[0]


def bi_dataclass(m, st, args, kw):
    if not args:
        return ("ext", "dataclasses.dataclass")
    c = args[0]
    o = st.get(c)
    ann = o["attrs"].get("__annotations__")
    own = [kval(s[1]) for s in st.get(ann)["segs"]] if ann else []
    fields, defaults = [], {}
    for b in reversed(o["mro"][1:]):
        if b[0] == "r" and st.get(b).get("dataclass"):
            fields += [x for x in st.get(b)["dcfields"] if x not in fields]
            defaults.update(st.get(b)["defaults"])
    for n in own:
        if n not in fields:
            fields.append(n)
        if n in o["attrs"]:
            v = o["attrs"][n]
            if v[0] == "r" and st.get(v)["kind"] == "dcfield":
                f = st.get(v)
                if f["default"] is not None:
                    defaults[n] = f["default"]
                elif f["factory"] is not None:
                    defaults[n] = ("factory", f["factory"])
            else:
                defaults[n] = v
    st.upd(c, dataclass=True, dcfields=tuple(fields), defaults=defaults)
    return c


def bi_field(m, st, args, kw):
    return st.new("dcfield", default=kw.get("default"), factory=kw.get("default_factory"))


def bi_object(m, st, args, kw):
    return st.new("inst", cls=("ext", "builtins.object"), attrs={})


def bi_cast(m, st, args, kw):
    return args[1]


def bi_typevar(m, st, args, kw):
    return ("ext", "typing.TypeVar.instance")


def bi_ordered(cls):
    def f(m, st, args, kw):
        if args and concrete_peek(m, st, args[0]) is False:
            return via_list(m, st, ("ext", "collections." + cls), args[0], [], kw)
        d = bi_dict(m, st, args, kw)
        if d[0] == "r":
            st.upd(d, cls="collections." + cls)
        return d
    return f


def bi_counter(m, st, args, kw):
    if args:
        segs = concrete_segs(m, st, args[0]) if concrete_peek(m, st, args[0]) else None
        if segs is not None and exact(segs):
            d = st.new("dict", segs=(), cls="collections.Counter")
            for s in segs:
                old = dict_get(m, st, d, s[1], K(0))
                dict_set(m, st, d, s[1], K(old[2] + 1), quiet=True)
            return d
        if segs is not None and len(segs) == 1 and segs[0][0] == "s":
            return st.new("dict", segs=(("s", T("counter", segs[0][1])),), cls="collections.Counter")
        return via_list(m, st, ("ext", "collections.Counter"), args[0], [], kw)
    return st.new("dict", segs=(), cls="collections.Counter")


def bi_vars(m, st, args, kw):
    return get_attr(m, st, args[0], "__dict__")


def bi_slice(m, st, args, kw):
    a = list(args)
    if len(a) == 1:
        a = [NONE] + a
    return ("slice",) + tuple(a)


def bi_divmod(m, st, args, kw):
    return ("tup", (binary(m, st, "//", args[0], args[1]), binary(m, st, "%", args[0], args[1])))


def bi_pow(m, st, args, kw):
    return binary(m, st, "**", args[0], args[1])


def bi_format(m, st, args, kw):
    return format_value(m, st, args[0], 0, args[1] if len(args) > 1 else None)


def op2(sym):
    def f(m, st, args, kw):
        return binary(m, st, sym, args[0], args[1])
    return f


def cmp2(sym):
    def f(m, st, args, kw):
        return compare(m, st, sym, args[0], args[1])
    return f


def bi_attrgetter(m, st, args, kw):
    return st.new("partial", func=("ext", "vp.getattr_rev"), args=(args[0],), kw={}, attrs={})


def bi_itemgetter(m, st, args, kw):
    return st.new("partial", func=("ext", "vp.getitem_rev"), args=tuple(args), kw={}, attrs={})


def bi_getattr_rev(m, st, args, kw):
    v = args[1]
    for n in kval(args[0]).split("."):
        v = get_attr(m, st, v, n)
    return v


def bi_getitem_rev(m, st, args, kw):
    if len(args) == 2:
        return subscr(m, st, args[1], args[0])
    return ("tup", tuple(subscr(m, st, args[-1], a) for a in args[:-1]))


def bi_globals(m, st, args, kw):
    raise Unsupported("globals()")


def bi_namedtuple(m, st, args, kw):
    names = const_deep(m, st, args[1])
    if names is None:
        raise Unsupported("namedtuple")
    f = names[0]
    f = tuple(f.replace(",", " ").split()) if isinstance(f, str) else tuple(f)
    c = new_class(m, st, kval(args[0]), [("ext", "builtins.tuple")], {})
    st.upd(c, fields=f, defaults={})
    return c


def bi_deque(m, st, args, kw):
    if args:
        segs = concrete_segs(m, st, args[0]) if concrete_peek(m, st, args[0]) else None
        if segs is None:
            return via_list(m, st, ("ext", "collections.deque"), args[0], args[1:], kw)
        ml = kwget(args, kw, 1, "maxlen", NONE)
        if is_k(ml) and ml[2] is not None:
            segs = segs[-ml[2]:] if ml[2] else ()
        return st.new("deque", segs=segs)
    return st.new("deque", segs=())


def bi_copy(m, st, args, kw):
    v = args[0]
    if v[0] == "r":
        o = dict(st.get(v))
        k = o.pop("kind")
        if k in ("list", "dict", "set", "inst", "deque"):
            f = m.lookup_class_attr(st, o["cls"], "__copy__") if k == "inst" else None
            if f is not None:
                return m.call(st, f, [v], {})
            return st.new(k, **o)
    return v


def deepcopy(m, st, v, memo):
    if v[0] == "tup":
        return ("tup", tuple(deepcopy(m, st, x, memo) for x in v[1]))
    if v[0] != "r":
        return v
    if v in memo:
        return memo[v]
    o = dict(st.get(v))
    k = o.pop("kind")
    if k in ("list", "set", "dict", "deque", "tuple"):
        n = st.new(k, **o)
        memo[v] = n
        st.upd(n, segs=tuple(tuple(deepcopy(m, st, x, memo) if i else x for i, x in enumerate(s)) if s[0] == "i" else s for s in o["segs"]))
        return n
    if k == "inst" and not o.get("enum"):
        n = st.new(k, **o)
        memo[v] = n
        st.upd(n, attrs={a: deepcopy(m, st, x, memo) for a, x in o["attrs"].items()})
        return n
    return v


def bi_deepcopy(m, st, args, kw):
    return deepcopy(m, st, args[0], {})


def bi_warn(m, st, args, kw):
    m.w.warned(m, st, args, kw)
    return NONE


def bi_noop(m, st, args, kw):
    return NONE


BUILTINS = {
    "len": bi_len, "iter": bi_iter, "next": bi_next, "list": collect("list"), "tuple": collect("tuple"), "set": collect("set"),
    "frozenset": collect("frozenset"), "dict": bi_dict, "zip": bi_zip, "map": bi_map, "enumerate": bi_enumerate, "range": bi_range,
    "reversed": bi_reversed, "str": bi_str, "int": bi_int, "float": bi_float, "bool": bi_bool, "complex": bi_complex,
    "isinstance": bi_isinstance, "issubclass": bi_issubclass, "hasattr": bi_hasattr, "getattr": bi_getattr, "setattr": bi_setattr,
    "delattr": bi_delattr, "type": bi_type, "print": bi_print, "repr": bi_repr, "ascii": bi_repr, "hash": bi_hash, "id": bi_id, "max": minmax("max"),
    "min": minmax("min"), "sum": bi_sum, "sorted": bi_sorted, "abs": bi_abs, "round": bi_round, "ord": bi_ord, "chr": bi_chr,
    "bytes": bi_bytes, "callable": bi_callable, "property": bi_property, "classmethod": bi_classmethod, "staticmethod": bi_staticmethod,
    "super": bi_super, "__build_class__": bi_build_class, "object": bi_object, "vars": bi_vars, "slice": bi_slice, "divmod": bi_divmod,
    "pow": bi_pow, "format": bi_format, "globals": bi_globals, "locals": bi_globals,
    "functools.lru_cache": bi_lru_cache, "functools.cache": bi_cached, "vp.lru_decorator": bi_cached, "functools.partial": bi_partial,
    "functools.wraps": bi_wraps, "vp.identity": bi_identity, "dataclasses.dataclass": bi_dataclass, "dataclasses.field": bi_field,
    "typing.cast": bi_cast, "typing.TypeVar": bi_typevar, "typing.NewType": bi_typevar, "typing.overload": bi_identity,
    "collections.OrderedDict": bi_ordered("OrderedDict"), "collections.Counter": bi_counter, "collections.namedtuple": bi_namedtuple,
    "collections.deque": bi_deque,
    "operator.attrgetter": bi_attrgetter, "operator.itemgetter": bi_itemgetter, "vp.getattr_rev": bi_getattr_rev, "vp.getitem_rev": bi_getitem_rev,
    "operator.add": op2("+"), "operator.sub": op2("-"), "operator.mul": op2("*"), "operator.eq": cmp2("=="), "operator.ne": cmp2("!="),
    "operator.lt": cmp2("<"), "operator.gt": cmp2(">"), "operator.le": cmp2("<="), "operator.ge": cmp2(">="),
    "copy.copy": bi_copy, "copy.deepcopy": bi_deepcopy, "warnings.warn": bi_warn, "gc.collect": bi_noop,
}
