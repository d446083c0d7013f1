# -*- coding: utf-8 -*-
"""Texts whose characters are single symbols: every string operation on them is
carried out character by character, asking which characters are equal only where
the analysed code depends on it.  One run therefore stands for all texts of that
length, whatever their characters are."""
import hashlib
import itertools
import os
import re
import unicodedata
from functools import lru_cache

from . import pymodels as pm
from . import rx
from .pybc import K, NONE, PyRaise, T, TRUE, FALSE, Prune, Unsupported, is_k, kval
from .pyprog import REGISTRY, World


class CharWorld(World):
    MAX_CHARS = 40

    # ---- representation
    def chars(self, m, st, v):
        """the characters of a text, each a constant or a symbol of length one; None when unknown"""
        v = m.resolve(st, v)
        if v[0] == "k":
            return [K(c) for c in v[2]] if isinstance(v[2], str) else None
        if v[0] != "t":
            return None
        if v[1] == "concat":
            out = []
            for p in v[2:]:
                c = self.chars(m, st, p)
                if c is None:
                    return None
                out += c
            return out
        if m.typ(st, v) != "str":
            return None
        lo, hi = m.bounds(st, T("len", v))
        if lo == hi == 1:
            return [self.rep(m, st, v)]
        if lo == hi == 0:
            return []
        if m.decide(st, m.mk_eq_raw(v, K(""))) is True:
            return []
        if hi == 1 and lo == 0:
            return [] if m.ask(st, m.mk_eq_raw(v, K(""))) else [v]
        return None

    def rep(self, m, st, v):
        """one of the values known to be equal to a character, always the same one"""
        if v[0] != "t":
            return v
        c = m.eqclass(st, v)
        if len(c) == 1:
            return v
        for x in c:
            if x[0] == "k":
                return x
        return min(c, key=repr)

    def text(self, m, st, cs):
        return pm.concat(m, st, cs)

    def same_char(self, m, st, a, b):
        return pm.eq_ask(m, st, a, b)

    def at(self, m, st, cs, i, sub):
        return i + len(sub) <= len(cs) and i >= 0 and all(self.same_char(m, st, cs[i + j], x) for j, x in enumerate(sub))

    def one(self, v):
        return v[0] == "t"

    # ---- hooks
    def spread(self, m, st, t):
        if m.typ(st, t) == "str":
            cs = self.chars(m, st, t)
            if cs is not None:
                return tuple(("i", c) for c in cs)
        return None

    def spread_truth(self, m, st, t):
        return None

    def equal(self, m, st, a, b):
        if not (self.one(a) or self.one(b)):
            return None
        for x in (a, b):
            if x[0] == "t" and m.typ(st, x) != "str" or x[0] not in ("t", "k"):
                return None
        if not any(x[0] == "t" and x[1] == "concat" or x[0] == "k" and isinstance(x[2], str) and len(x[2]) != 1 for x in (a, b)):
            return None
        ca, cb = self.chars(m, st, a), self.chars(m, st, b)
        if ca is None or cb is None:
            return None
        if len(ca) != len(cb):
            return False
        return all(self.same_char(m, st, x, y) for x, y in zip(ca, cb))

    def less(self, m, st, op, a, b):
        if not any(x[0] == "t" and x[1] == "concat" for x in (a, b)):
            return None
        ca, cb = self.chars(m, st, a), self.chars(m, st, b)
        if ca is None or cb is None:
            return None
        for x, y in zip(ca, cb):
            if not self.same_char(m, st, x, y):
                return pm.less(m, st, "<", x, y)
        return K(len(ca) < len(cb) if op == "<" else len(ca) <= len(cb))

    def truth(self, m, st, v):
        if v[0] == "t" and v[1] == "match":
            return True
        if v[0] == "t" and m.typ(st, v) == "str":
            cs = self.chars(m, st, v)
            if cs is not None:
                return bool(cs)
        return None

    def subscr(self, m, st, o, k):
        if not (o[0] == "t" and m.typ(st, o) == "str"):
            return None
        cs = self.chars(m, st, o)
        if cs is None:
            return None
        if k[0] == "slice":
            a, b, s = k[1], k[2], k[3] if len(k) > 3 else NONE
            if is_k(a) and is_k(b) and is_k(s):
                return self.text(m, st, cs[slice(a[2], b[2], s[2])])
            return None
        if k[0] == "k":
            try:
                return cs[k[2]]
            except IndexError:
                m.throw(st, "IndexError", "string index out of range")
            except TypeError as e:
                m.throw(st, "TypeError", str(e))
        return pm.pick(m, st, tuple(("i", c) for c in cs), k)

    def contains(self, m, st, x, c):
        if not (c[0] in ("t", "k") and m.typ(st, c) == "str"):
            return None
        if c[0] == "k" and x[0] == "k":
            return None
        if m.typ(st, x) != "str":
            return None
        cs, xs = self.chars(m, st, c), self.chars(m, st, x)
        if cs is None or xs is None:
            return None
        return self.find(m, st, cs, xs) >= 0

    def find(self, m, st, cs, sub, start=0, end=None):
        end = len(cs) if end is None else min(end, len(cs))
        for i in range(start, end - len(sub) + 1):
            if self.at(m, st, cs, i, sub):
                return i
        return -1

    def rfind(self, m, st, cs, sub):
        for i in range(len(cs) - len(sub), -1, -1):
            if self.at(m, st, cs, i, sub):
                return i
        return -1

    def space(self, m, st, c):
        if c[0] == "k":
            return c[2].isspace()
        return m.ask(st, T("str.isspace", c))

    def str_method(self, m, st, recv, name, args, kw):
        args = [m.resolve(st, a) for a in args]
        if recv[0] == "k" and not isinstance(recv[2], str):
            return None
        if recv[0] == "k" and all(pm.const_deep(m, st, a) is not None for a in args):
            return None
        cs = self.chars(m, st, recv)
        if cs is None:
            return None
        def lst(parts):
            return st.new("list", segs=tuple(("i", self.text(m, st, p)) for p in parts))
        def arg(i, n, default=None):
            v = args[i] if len(args) > i else kw.get(n)
            return default if v is None else v
        def sub(i, n="sub"):
            v = arg(i, n)
            return None if v is None or v[0] == "k" and v[2] is None else self.chars(m, st, v)
        if name in ("startswith", "endswith"):
            a = args[0]
            if a[0] == "tup":
                return K(any(kval(self.str_method(m, st, recv, name, [x], {}) or FALSE) for x in a[1]))
            xs = self.chars(m, st, a)
            if xs is None or len(args) > 1:
                return None
            return K(self.at(m, st, cs, 0 if name[0] == "s" else len(cs) - len(xs), xs))
        if name in ("strip", "lstrip", "rstrip"):
            a = arg(0, "chars", NONE)
            if a == NONE:
                test = lambda c: self.space(m, st, c)
            else:
                xs = self.chars(m, st, a)
                if xs is None:
                    return None
                test = lambda c: any(self.same_char(m, st, c, x) for x in xs)
            i, j = 0, len(cs)
            if name != "rstrip":
                while i < j and test(cs[i]):
                    i += 1
            if name != "lstrip":
                while j > i and test(cs[j - 1]):
                    j -= 1
            return self.text(m, st, cs[i:j])
        if name in ("split", "rsplit"):
            xs = sub(0, "sep")
            mx = arg(1, "maxsplit", K(-1))
            if xs is None or not is_k(mx):
                return None
            if not xs:
                m.throw(st, "ValueError", "empty separator")
            n = mx[2] if mx[2] >= 0 else 10 ** 6
            parts = []
            if name == "split":
                i = 0
                while n > 0:
                    p = self.find(m, st, cs, xs, i)
                    if p < 0:
                        break
                    parts.append(cs[i:p])
                    i = p + len(xs)
                    n -= 1
                return lst(parts + [cs[i:]])
            while n > 0:
                p = self.rfind(m, st, cs, xs)
                if p < 0:
                    break
                parts.append(cs[p + len(xs):])
                cs = cs[:p]
                n -= 1
            return lst([cs] + parts[::-1])
        if name in ("partition", "rpartition"):
            xs = sub(0)
            if xs is None:
                return None
            if not xs:
                m.throw(st, "ValueError", "empty separator")
            p = self.find(m, st, cs, xs) if name == "partition" else self.rfind(m, st, cs, xs)
            e = K("")
            if p < 0:
                return ("tup", (recv, e, e) if name == "partition" else (e, e, recv))
            return ("tup", tuple(self.text(m, st, x) for x in (cs[:p], cs[p:p + len(xs)], cs[p + len(xs):])))
        if name == "splitlines":
            keep = pm.truth(m, st, arg(0, "keepends", FALSE))
            ends = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"
            out, cur, i = [], [], 0
            while i < len(cs):
                c = cs[i]
                if any(self.same_char(m, st, c, K(e)) for e in ends):
                    e = [c]
                    if i + 1 < len(cs) and self.same_char(m, st, c, K("\r")) and self.same_char(m, st, cs[i + 1], K("\n")):
                        e.append(cs[i + 1])
                    out.append(cur + (e if keep else []))
                    cur = []
                    i += len(e)
                else:
                    cur.append(c)
                    i += 1
            return lst(out + ([cur] if cur else []))
        if name in ("find", "index", "rfind", "rindex", "count"):
            xs = sub(0)
            if xs is None or len(args) > 2 or len(args) > 1 and (name[0] == "r" or not is_k(args[1])):
                return None
            start = args[1][2] if len(args) > 1 else 0
            if name == "count":
                if not xs:
                    return K(max(0, len(cs) - start) + 1)
                n, i = 0, start
                while True:
                    p = self.find(m, st, cs, xs, i)
                    if p < 0:
                        return K(n)
                    n += 1
                    i = p + len(xs)
            p = self.rfind(m, st, cs, xs) if name[0] == "r" else self.find(m, st, cs, xs, start)
            if p < 0 and name in ("index", "rindex"):
                m.throw(st, "ValueError", "substring not found")
            return K(p)
        if name == "replace":
            xs, ys = sub(0, "old"), sub(1, "new")
            n = arg(2, "count", K(-1))
            if xs is None or ys is None or not xs or not is_k(n):
                return None
            n = n[2] if n[2] >= 0 else 10 ** 6
            out, i = [], 0
            while i < len(cs):
                if n > 0 and self.at(m, st, cs, i, xs):
                    out += ys
                    i += len(xs)
                    n -= 1
                else:
                    out.append(cs[i])
                    i += 1
            return self.text(m, st, out)
        if name in ("removeprefix", "removesuffix"):
            xs = sub(0)
            if xs is None:
                return None
            if name == "removeprefix":
                return self.text(m, st, cs[len(xs):]) if self.at(m, st, cs, 0, xs) else recv
            return self.text(m, st, cs[:len(cs) - len(xs)]) if xs and self.at(m, st, cs, len(cs) - len(xs), xs) else recv
        if name == "isspace":
            return K(bool(cs) and all(self.space(m, st, c) for c in cs))
        if name in ("isalnum", "isalpha", "isdigit", "isdecimal", "isnumeric", "isprintable") and not args:
            f = lambda c: getattr(c[2], name)() if c[0] == "k" else m.ask(st, T("str." + name, c))
            return K((bool(cs) or name == "isprintable") and all(f(c) for c in cs))
        if name == "__iter__":
            return pm.get_iter(m, st, recv)
        if name == "encode":
            if self.plain_codec(m, st, args, kw):
                return T("encoded", pm.freeze(m, st, recv), args[0] if args else kw.get("encoding", K("utf-8")))
        return None

    # ---- encoding and decoding with the same codec gives the text back
    def plain_codec(self, m, st, args, kw):
        return len(args) <= 1 and set(kw) <= {"encoding"}

    def term_type(self, m, st, v):
        if v[0] == "t" and v[1] == "encoded":
            return "bytes"
        if v[0] == "t" and v[1] == "match":
            return "Match"
        if v[0] == "t" and v[1] == "group":
            return "str"
        return super().term_type(m, st, v)

    def ext_call(self, m, st, name, args, kw):
        if name in ("builtins.bytes", "bytes") and args and m.typ(st, m.resolve(st, args[0])) == "str":
            enc = args[1] if len(args) > 1 else kw.get("encoding")
            if enc is not None and len(args) <= 2 and set(kw) <= {"encoding"}:
                return T("encoded", pm.freeze(m, st, m.resolve(st, args[0])), m.resolve(st, enc))
        if name == "codecs.decode" and args:
            x = m.resolve(st, args[0])
            enc = args[1] if len(args) > 1 else kw.get("encoding", K("utf-8"))
            if x[0] == "t" and x[1] == "encoded" and x[3] == m.resolve(st, enc):
                return x[2]
        if name == "codecs.encode" and args and m.typ(st, m.resolve(st, args[0])) == "str":
            return T("encoded", pm.freeze(m, st, m.resolve(st, args[0])), m.resolve(st, args[1] if len(args) > 1 else kw.get("encoding", K("utf-8"))))
        if name in ("regex.escape", "re.escape") and len(args) == 1:
            x = m.resolve(st, args[0])
            if x[0] == "k" and isinstance(x[2], str):
                return K(re.escape(x[2]))
        if name == "unicodedata.category" and len(args) == 1 and not kw:
            x = m.resolve(st, args[0])
            r = self.rep(m, st, x)
            if r != x:
                return K(unicodedata.category(r[2])) if r[0] == "k" else T(name, r)
        if name in ("re.sub", "regex.sub", "re.search", "regex.search", "re.match", "regex.match", "re.fullmatch", "regex.fullmatch",
                    "re.findall", "regex.findall", "re.finditer", "regex.finditer", "re.split", "regex.split", "re.subn", "regex.subn"):
            return self.pattern_call(m, st, name.split(".")[1], args[0], list(args[1:]), kw)
        return super().ext_call(m, st, name, args, kw)

    def method(self, m, st, recv, name, args, kw):
        if recv[0] == "t" and recv[1] == "match":
            return self.method_of_match(m, st, recv, name, args, kw)
        if recv[0] == "t" and recv[1] in ("re.compile", "regex.compile"):
            return self.pattern_call(m, st, name, recv, args, kw)
        if recv[0] == "t" and recv[1] == "encoded" and name == "decode":
            enc = args[0] if args else kw.get("encoding", K("utf-8"))
            if m.resolve(st, enc) == recv[3]:
                return recv[2]
        return super().method(m, st, recv, name, args, kw)

    def call_method(self, m, st, recv, name, args, kw):
        if recv[0] == "t" and recv[1] == "encoded" and name == "decode":
            return self.method(m, st, recv, name, args, kw)
        return None

    def pattern_call(self, m, st, what, pat, args, kw):
        """a use of a regular expression: the scenario says what it gives, or the pattern is followed"""
        p = m.resolve(st, pat)
        text, flags = p, 0
        while text[0] == "t" and text[1] in ("re.compile", "regex.compile"):
            if len(text) != 3:
                raise Unsupported("a regular expression is compiled with flags")
            text = text[2]
        f = st.get(REGISTRY).get("stubs", {}).get("regex " + what)
        if f is not None:
            return m.call(st, f, list(args), kw)
        f = st.get(REGISTRY).get("stubs", {}).get("regex")
        if f is not None:
            return m.call(st, f, [K(what), text if text[0] == "k" else K("?")] + list(args), kw)
        if what in ("sub", "split", "findall", "subn") and text[0] == "k" and not kw and p[0] in ("k", "t"):
            cargs = [m.resolve(st, a) for a in args]
            if all(a[0] == "k" and isinstance(a[2], (str, int)) for a in cargs):
                try:
                    return self.folded(m, st, getattr(re, what)(text[2], *[a[2] for a in cargs]))
                except re.error:
                    pass
        if what in ("fullmatch", "match", "search") and text[0] == "k" and isinstance(text[2], str) and not kw and len(args) == 1:
            return self.match(m, st, what, text[2], m.resolve(st, args[0]))
        raise Unsupported("a regular expression is used (%s)" % what)

    def match(self, m, st, what, pattern, subject):
        if m.typ(st, subject) != "str":
            if m.typ(st, subject) is None:
                raise Unsupported("a pattern is applied to an unknown value")
            m.throw(st, "TypeError", "expected string or buffer")
        cs = self.chars(m, st, subject)
        try:
            if cs is not None:
                ok = self.follow(m, st, what, pattern, cs)
            else:
                ok = m.ask(st, T("rx", K(what), K(pattern), subject))
        except rx.RxError as e:
            raise Unsupported("a pattern cannot be followed: %s" % e)
        return T("match", K(what), K(pattern), subject) if ok else NONE

    def follow(self, m, st, what, pattern, cs):
        """matches a pattern against characters, asking only what the outcome depends on"""
        n, al, au = automaton(what, pattern)
        S = au.initial()
        for c in cs:
            groups = {}
            for l in range(al.n):
                groups.setdefault(au.next(S, l), []).append(l)
            if len(groups) == 1:
                S = next(iter(groups))
                continue
            todo = sorted(groups.items(), key=lambda g: len(g[1]))
            for N, ls in todo[:-1]:
                if self.in_set(m, st, c, al.intervals(ls)):
                    S = N
                    break
            else:
                S = todo[-1][0]
        return au.accepts(S)

    def in_set(self, m, st, c, iv):
        if c[0] == "k":
            return any(a <= ord(c[2]) <= b for a, b in iv)
        if len(iv) == 1 and iv[0][0] == iv[0][1]:
            return self.same_char(m, st, c, K(chr(iv[0][0])))
        return m.ask(st, T("inset", set_name(iv), self.rep(m, st, c)))

    def method_of_match(self, m, st, recv, name, args, kw):
        what, pattern, subject = recv[2][2], recv[3][2], recv[4]
        g = args[0] if args else K(0)
        if name in ("group", "__getitem__") and len(args) <= 1 and not kw and is_k(g):
            try:
                sure = rx.group_always(pattern, g[2])
            except rx.RxError as e:
                raise Unsupported("a group cannot be followed: %s" % e)
            if sure is None:
                m.throw(st, "IndexError", "no such group")
            if g[2] == 0 and what == "fullmatch":
                return subject
            v = T("group", recv, g)
            if not sure and m.choose(st, "group %s takes no part in the match" % g[2], [True, False]):
                return NONE
            return v
        raise Unsupported("a match is used in an unknown way (%s)" % name)

    def folded(self, m, st, r):
        """the value of a constant expression"""
        if isinstance(r, list):
            return st.new("list", segs=tuple(("i", self.folded(m, st, x)) for x in r))
        if isinstance(r, tuple):
            return ("tup", tuple(self.folded(m, st, x) for x in r))
        return K(r)

    # ---- what is known of a character
    def possible(self, m, st, c):
        """the characters a symbol may still be, as intervals"""
        parts, cats, consts = [], {}, []
        for f, v in st.facts.items():
            if f[0] != "t":
                continue
            if f[1] == "eq":
                for a, b in ((f[2], f[3]), (f[3], f[2])):
                    if b[0] != "k" or not isinstance(b[2], str):
                        continue
                    if a == c and len(b[2]) == 1:
                        if v:
                            consts.append(b[2])
                        parts.append((("c", b[2]), v))
                    elif a[0] == "t" and a[1] == "unicodedata.category" and a[2] == c:
                        cats[b[2]] = v
            elif f[1] == "inset" and f[3] == c:
                parts.append((("s", f[2]), v))
            elif f[1] in ("str.isdigit", "str.isspace") and len(f) == 3 and f[2] == c:
                parts.append((("p", f[1][4:].replace("isspace", "space")), v))
        known = [k for k, v in cats.items() if v]
        if len(known) > 1:
            return 0
        if known:
            cats = {known[0]: True}
        parts += [(("u", k), v) for k, v in cats.items()]
        return possible_mask(frozenset(parts))

    def decide(self, m, st, t):
        if t[0] == "t" and t[1] == "inset":
            r = self.possible(m, st, t[3])
            q = mask(("s", t[2]))
            if not r & q:
                return False
            if not r & ~q:
                return True
        return super().decide(m, st, t)

    def subject(self, t):
        """the character a fact is about"""
        if t[0] != "t":
            return None
        if t[1] == "inset":
            return t[3]
        if t[1] in ("str.isdigit", "str.isspace") and len(t) == 3:
            return t[2]
        if t[1] == "eq":
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if b[0] == "k" and isinstance(b[2], str) and a[0] == "t":
                    if a[1] == "unicodedata.category":
                        return a[2]
                    if len(b[2]) == 1:
                        return a
        return None

    def learned(self, m, st, t, val):
        """a character must be able to have all the properties it was found to have"""
        if val and t[1] == "eq":
            x, y = t[2], t[3]
            if x[0] == y[0] == "t" and m.typ(st, x) == m.typ(st, y) == "str":
                r = self.rep(m, st, x)
                if r[0] == "t":
                    self.merge(m, st, r, [z for z in m.eqclass(st, x) if z != r])
        c = self.subject(t)
        if c is not None and c[0] == "t":
            r = self.possible(m, st, c)
            if not r:
                raise Prune()

    def merge(self, m, st, r, others):
        """what is known of equal characters is known of their representative"""
        for f, v in list(st.facts.items()):
            if f[0] != "t":
                continue
            g = None
            if f[1] == "eq":
                for a, b in ((f[2], f[3]), (f[3], f[2])):
                    if a[0] == "t" and b[0] == "k":
                        if a[1] == "unicodedata.category" and a[2] in others:
                            g = m.mk_eq_raw(T("unicodedata.category", r), b)
                            if v:
                                st.facts[("=", T("unicodedata.category", r))] = b
                        elif a in others:
                            g = m.mk_eq_raw(r, b)
            elif f[1].startswith("str.is") and len(f) == 3 and f[2] in others:
                g = T(f[1], r)
            elif f[1] == "inset" and f[3] in others:
                g = T("inset", f[2], r)
            if g is not None:
                if st.facts.get(g, v) != v:
                    raise Prune()
                st.facts[g] = v
        if not self.possible(m, st, r):
            raise Prune()


SETS = {}


def set_name(iv):
    n = "set %d %s" % (len(iv), hash_of(iv))
    SETS[n] = iv
    return n


def hash_of(iv):
    return hashlib.md5(repr(iv).encode()).hexdigest()[:12]


EVERY = (1 << (rx.MAXCP + 1)) - 1


@lru_cache(None)
def mask(what):
    """a set of characters as a number with one bit for each"""
    k, x = what
    if k == "c":
        return 1 << ord(x)
    if k == "u":
        try:
            iv = rx.category(x)
        except rx.RxError:
            return 0
    elif k == "p":
        iv = rx.predicate(x)
    else:
        iv = SETS[x]
    r = 0
    for a, b in iv:
        r |= ((1 << (b - a + 1)) - 1) << a
    return r


@lru_cache(1000)
def possible_mask(parts):
    r = EVERY
    for what, v in parts:
        if what[0] == "c" and v:
            # only one character is left
            ch = what[1]
            return 1 << ord(ch) if all(holds(w, ch) == u for w, u in parts) else 0
    for what, v in parts:
        if v:
            r &= mask(what)
    for what, v in parts:
        if not v:
            r &= ~mask(what)
    return r


def holds(what, ch):
    k, x = what
    if k == "c":
        return x == ch
    if k == "u":
        return unicodedata.category(ch) == x
    if k == "p":
        return ch.isdigit() if x == "isdigit" else ch.isspace()
    return any(a <= ord(ch) <= b for a, b in SETS[x])


@lru_cache(None)
def automaton(what, pattern):
    p = {"fullmatch": "(?:%s)", "match": "(?:%s)(?:.|\n)*", "search": "(?:.|\n)*(?:%s)(?:.|\n)*"}[what] % pattern
    n = rx.build(p)
    sets, singles = rx.sets_of(n)
    al = rx.Alphabet(sets, singles)
    return n, al, rx.Auto(n, al)


class ScoreWorld(CharWorld):
    """scores: a type score is at most one, so a product is at most its pattern score"""

    def order_axioms(self, m, st, nodes):
        for n in nodes:
            if n[0] == "t" and n[1] == "*":
                for x, y in ((n[2], n[3]), (n[3], n[2])):
                    if is_p(x) and is_t(y):
                        yield n, x, False
                        yield K(0), n, False
            if is_p(n):
                yield K(0), n, False
            if is_t(n):
                yield K(0), n, True
                yield n, K(1), False
            if n[0] == "k" and n[1] == "float" and n[2] == float("-inf"):
                yield n, K(0), True
        yield K(float("-inf")), K(0), True
        yield K(0), K(1), True

    def binary(self, m, st, op, a, b, inplace):
        if op == "*" and is_t(a) and is_p(b):
            return T("*", b, a)
        return None


def is_p(x):
    return x[0] == "t" and x[1] == "arg" and x[2].startswith("P ")


def is_t(x):
    return x[0] == "t" and x[1] == "arg" and x[2].startswith("T ")


class FactWorld(CharWorld):
    """collects what each path knows of the text it decides about; reading json may fail in every way it can"""

    def ext_call(self, m, st, name, args, kw):
        if name == "json.loads" and args:
            o = m.choose(st, "reading the text as json", ["succeeds", "JSONDecodeError", "ValueError", "RecursionError"])
            if o == "succeeds":
                return st.fresh(("json",), None)
            if o == "JSONDecodeError":
                raise PyRaise(m.new_exc(st, ("ext", "json.JSONDecodeError"), K("Expecting value")))
            m.throw(st, o, "the json text is refused")
        return super().ext_call(m, st, name, args, kw)

    def __init__(self):
        super().__init__()
        self.data = []

    def vp_record(self, m, st, args, kw):
        v = m.resolve(st, args[0])
        if v[0] != "k":
            raise Unsupported("the outcome is unknown")
        self.data.append((bool(v[2]), [(t, bool(x)) for t, x in st.facts.items() if t[0] == "t"]))
        return NONE

    def str_method(self, m, st, recv, name, args, kw):
        if name == "strip" and not args and not kw and recv[0] == "t" and recv[1] == "str.strip" and len(recv) == 3:
            return recv
        return super().str_method(m, st, recv, name, args, kw)


class OrderWorld(CharWorld):
    """sets are iterated in every order once the scenario asks for it"""
    set_orders = True
    FULL = 4
    DEVIATIONS = 2 if os.environ.get("VERIF_TIER") == "thorough" else 1

    def vp_orders(self, m, st, args, kw):
        st.upd(REGISTRY, orders=args[0] == TRUE)
        return NONE

    def set_order(self, m, st, v, segs):
        reg = st.get(REGISTRY)
        if not reg.get("orders") or not st.frames or st.frames[-1].code.module == "vp_harness":
            return segs
        known = reg.get("set orders", {})
        if (v, segs) in known:
            return known[v, segs]
        n = len(segs)
        used = reg.get("orders used", 0)
        if used >= self.DEVIATIONS:
            return segs
        if n <= self.FULL:
            perms = list(itertools.permutations(range(n)))
        else:
            ids = tuple(range(n))
            perms = [ids, ids[::-1]] + [ids[i:] + ids[:i] for i in range(1, n)]
        p = m.choose(st, "order of a set", perms) if len(perms) > 1 else perms[0]
        out = tuple(segs[i] for i in p)
        st.upd(REGISTRY, **{"set orders": {**known, (v, segs): out}, "orders used": used + (out != segs)})
        return out

    def cached_call(self, m, st, f, o, args, kw):
        """what was computed for equal arguments is given again"""
        if o.get("store") is None:
            st.upd(f, store=st.new("list", segs=()))
        d = st.new("dict", segs=())
        for n, v in kw.items():
            if n == "**":
                raise Unsupported("keyword arguments of a cached function")
            pm.dict_set(m, st, d, K(n), v, quiet=True)
        return m.call(st, m.prog.prelude_names(st)["_vp_memo"], [st.get(f)["store"], o["func"], ("tup", tuple(args)), d], {})

    def cache_cleared(self, m, st, f):
        if st.get(f).get("store") is not None:
            st.upd(st.get(f)["store"], segs=())

    def ext_call(self, m, st, name, args, kw):
        r = CharWorld.ext_call(self, m, st, name, args, kw)
        if r is None and name in ("builtins.hash", "builtins.id") and st.get(REGISTRY).get("orders") and args and args[0][0] != "r":
            return st.fresh(("%s of %s" % (name[9:], pm.show(args[0])[:30]),), "int")
        return r
