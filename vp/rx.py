# -*- coding: utf-8 -*-
"""Regular expressions as automata: parsing, exact automata with one character of
context, comparison of languages, and the search for exponential ambiguity."""
import re
import sys
import unicodedata
from functools import lru_cache

try:
    from re import _parser as sp, _constants as sc
except ImportError:  # pragma: no cover
    import sre_parse as sp
    import sre_constants as sc

MAXCP = 0x10FFFF


class RxError(Exception):
    pass


# ------------------------------------------------------------------ character sets
def norm(iv):
    iv = sorted(iv)
    out = []
    for a, b in iv:
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def negate(iv):
    out, p = [], 0
    for a, b in iv:
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= MAXCP:
        out.append((p, MAXCP))
    return tuple(out)


ALL = ((0, MAXCP),)


@lru_cache(None)
def _cats():
    """intervals of each Unicode category"""
    d, prev, start = {}, None, 0
    for c in range(MAXCP + 2):
        k = unicodedata.category(chr(c)) if c <= MAXCP else None
        if k != prev:
            if prev is not None:
                d.setdefault(prev, []).append((start, c - 1))
            prev, start = k, c
    return d


@lru_cache(None)
def category(name):
    if name in ("vp_isdigit", "vp_space"):
        return predicate(name[3:])
    d = _cats()
    name = name.strip()
    iv = [x for k, v in d.items() if k.lower() == name.lower() or len(name) == 1 and k[0].lower() == name.lower() for x in v]
    if not iv:
        raise RxError("unknown character property %s" % name)
    return norm(iv)


@lru_cache(None)
def predicate(what):
    out, start = [], None
    f = {"space": str.isspace, "isdigit": str.isdigit, "word": lambda c: c.isalnum() or c == "_"}[what]
    for c in range(MAXCP + 2):
        v = c <= MAXCP and f(chr(c))
        if v and start is None:
            start = c
        elif not v and start is not None:
            out.append((start, c - 1))
            start = None
    return tuple(out)


CATS = {}


def setup_cats():
    if CATS:
        return
    for n, f in (("DIGIT", lambda: category("Nd")), ("SPACE", lambda: predicate("space")), ("WORD", lambda: predicate("word"))):
        CATS[n] = f


PUA = 0xF0000


def parse(pattern, flags=0):
    """syntax tree of a pattern; Unicode properties are given private characters"""
    setup_cats()
    props = []

    def prop(m):
        neg = m.group(1) == "P"
        name = m.group(2) or m.group(3)
        if name.startswith("^"):
            neg, name = not neg, name[1:]
        iv = category(name)
        props.append(negate(iv) if neg else iv)
        return chr(PUA + len(props) - 1)
    p = re.sub(r"(?<!\\)((?:\\\\)*)\\([pP])(?:\{(\^?[A-Za-z_]+)\}|([A-Za-z]))",
               lambda m: m.group(1) + prop(_M(m.group(2), m.group(3), m.group(4))), pattern)
    try:
        t = sp.parse(p, flags)
    except re.error as e:
        raise RxError("the pattern cannot be parsed: %s" % e)
    return t, props


class _M:
    def __init__(self, *g):
        self.g = g

    def group(self, i):
        return self.g[i - 1]


def charset(items, props, flags):
    """the set of a [..] item list"""
    iv, neg = [], False
    for op, av in items:
        n = str(op)
        if n == "NEGATE":
            neg = True
        elif n == "LITERAL":
            iv += literal(av, props, flags)
        elif n == "RANGE":
            iv.append(av)
        elif n == "CATEGORY":
            iv += cat(av)
        else:
            raise RxError("unsupported set item %s" % n)
    r = norm(iv)
    return negate(r) if neg else r


def cat(av):
    n = str(av).replace("CATEGORY_", "")
    neg = n.startswith("NOT_")
    r = CATS[n.replace("NOT_", "").replace("UNI_", "")]()
    return negate(r) if neg else r


def literal(c, props, flags):
    if PUA <= c < PUA + len(props):
        return list(props[c - PUA])
    if flags & re.I:
        s = {chr(c), chr(c).lower(), chr(c).upper()}
        return [(ord(x), ord(x)) for x in s if len(x) == 1]
    return [(c, c)]


# ------------------------------------------------------------------ automaton
class Nfa:
    """states are numbers; edges: (kind, arg, target)
    kinds: eps, set, la (lookahead of one character or the end), lb, start, end, close (group), if (group, yes target), back (group)"""

    def __init__(self):
        self.edges = []
        self.tracked = set()      # groups whose participation matters
        self.captured = set()     # groups whose text matters

    def new(self):
        self.edges.append([])
        return len(self.edges) - 1

    def add(self, a, kind, arg, b):
        self.edges[a].append((kind, arg, b))


def build(pattern, flags=0, trim=False, lenient=None, tree_only=None):
    """the automaton of a pattern; with trim, position tests at its two ends are left out (the whole text is matched);
    with a list given as lenient, what has no exact automaton is read as empty and its parts are put on the list"""
    tree, props = parse(pattern, flags)
    flags |= tree.state.flags
    if flags & (re.M | re.L) and lenient is None:
        raise RxError("unsupported flags")
    if trim:
        trim_ends(tree)
    n = Nfa()

    def refs(t):
        for op, av in t:
            s = str(op)
            if s == "GROUPREF":
                n.captured.add(av)
            elif s == "GROUPREF_EXISTS":
                n.tracked.add(av[0])
                refs(av[1])
                if av[2] is not None:
                    refs(av[2])
            elif s == "SUBPATTERN":
                refs(av[3])
            elif s in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                refs(av[2])
            elif s == "BRANCH":
                for x in av[1]:
                    refs(x)
            elif s in ("ASSERT", "ASSERT_NOT"):
                refs(av[1])
            elif s == "ATOMIC_GROUP":
                refs(av)
    refs(tree)

    def single(t):
        """the set of a one-character pattern, or None"""
        t = list(t)
        if len(t) == 1:
            op, av = t[0]
            s = str(op)
            if s == "LITERAL":
                return norm(literal(av, props, flags))
            if s == "NOT_LITERAL":
                return negate(norm(literal(av, props, flags)))
            if s == "IN":
                return charset(av, props, flags)
            if s == "ANY":
                return ALL if flags & re.S else negate(((10, 10),))
            if s == "SUBPATTERN":
                return single(av[3])
            if s == "BRANCH":
                parts = [single(x) for x in av[1]]
                if all(p is not None for p in parts):
                    return norm([i for p in parts for i in p])
        return None

    def seq(t, a):
        for op, av in t:
            if lenient is None:
                a = item(str(op), av, a)
                continue
            s = str(op)
            if s in ("ASSERT", "ASSERT_NOT") and single(av[1]) is None:
                lenient.append(av[1])
            elif s == "GROUPREF" or s == "AT" and str(av) not in ("AT_BEGINNING", "AT_END", "AT_BEGINNING_STRING", "AT_END_STRING"):
                pass
            elif s == "ATOMIC_GROUP":
                a = seq(av, a)
            elif s == "POSSESSIVE_REPEAT":
                a = item("MAX_REPEAT", av, a)
            else:
                a = item(s, av, a)
        return a

    def item(s, av, a):
        if s in ("LITERAL", "NOT_LITERAL", "IN", "ANY"):
            b = n.new()
            n.add(a, "set", single([(s, av)]) if not isinstance(s, str) else single([(_Op(s), av)]), b)
            return b
        if s == "SUBPATTERN":
            g = av[0]
            if av[1] or av[2]:
                raise RxError("unsupported inline flags")
            if g in n.captured and lenient is None:
                cs = single(av[3])
                if cs is None:
                    raise RxError("a back reference to a group of more than one character")
                b = n.new()
                n.add(a, "cap", (g, cs), b)
            else:
                b = seq(av[3], a)
            if g in n.tracked:
                c = n.new()
                n.add(b, "close", g, c)
                b = c
            return b
        if s == "BRANCH":
            b = n.new()
            for x in av[1]:
                c = n.new()
                n.add(a, "eps", None, c)
                n.add(seq(x, c), "eps", None, b)
            return b
        if s in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, body = av
            if hi is not sc.MAXREPEAT and hi > 200 or lo > 200:
                raise RxError("unsupported repetition count")
            for _ in range(lo if hi is not sc.MAXREPEAT else max(lo - 1, 0)):
                a = seq(body, a)
            if hi is sc.MAXREPEAT:
                # one looping copy
                c, e = n.new(), n.new()
                n.add(a, "eps", None, c)
                d = seq(body, c)
                n.add(d, "loop", None, c)
                if lo >= 1:
                    n.add(d, "eps", None, e)
                else:
                    n.add(c, "eps", None, e)
                return e
            e = n.new()
            for _ in range(hi - lo):
                n.add(a, "eps", None, e)
                c = n.new()
                n.add(a, "eps", None, c)
                a = seq(body, c)
            n.add(a, "eps", None, e)
            return e
        if s in ("ASSERT", "ASSERT_NOT"):
            direction, body = av
            neg = s == "ASSERT_NOT"
            cs = single(body)
            if cs is None and len(body) == 1 and str(body[0][0]) == "AT":
                raise RxError("unsupported look-around")
            if cs is None:
                raise RxError("look-around over more than one character")
            b = n.new()
            n.add(a, "la" if direction > 0 else "lb", (cs, neg), b)
            return b
        if s == "AT":
            k = str(av)
            b = n.new()
            if k in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                n.add(a, "start", None, b)
            elif k in ("AT_END", "AT_END_STRING"):
                n.add(a, "end", None, b)
            else:
                raise RxError("unsupported position test %s" % k)
            return b
        if s == "GROUPREF":
            b = n.new()
            n.add(a, "back", av, b)
            return b
        if s == "GROUPREF_EXISTS":
            g, yes, no = av
            b, c = n.new(), n.new()
            e = n.new()
            n.add(a, "if", (g, True), b)
            n.add(a, "if", (g, False), c)
            n.add(seq(yes, b), "eps", None, e)
            n.add(seq(no, c) if no is not None else c, "eps", None, e)
            return e
        raise RxError("unsupported construct %s" % s)
    a = n.new()
    e = seq(tree if tree_only is None else tree_only, a)
    n.start, n.accept = a, e
    return n


def trim_ends(t):
    while len(t) and str(t[0][0]) == "AT" and str(t[0][1]).startswith("AT_BEGINNING"):
        del t[0]
    while len(t) and str(t[-1][0]) == "AT" and str(t[-1][1]).startswith("AT_END"):
        del t[-1]
    if len(t) == 1 and str(t[0][0]) == "SUBPATTERN":
        trim_ends(t[0][1][3])
    elif len(t) == 1 and str(t[0][0]) == "BRANCH":
        for x in t[0][1][1]:
            trim_ends(x)


def padded(pattern):
    """the texts that are in the language once white space is stripped from both ends"""
    n = build(pattern, trim=True)
    if any(k in ("start", "end") for es in n.edges for k, _, _ in es):
        raise RxError("position test inside a pattern that is applied to a stripped text")
    empty = matches(n, "")
    ws = predicate("space")
    s, e = n.new(), n.new()
    n.add(s, "set", ws, s)
    n.add(s, "la", (negate(ws), False), n.start)
    n.add(n.accept, "lb", (negate(ws), False), e)
    n.add(e, "set", ws, e)
    if empty:
        n.add(s, "eps", None, e)
    n.start, n.accept = s, e
    return n


class _Op(str):
    def __str__(self):
        return str.__str__(self)


# ------------------------------------------------------------------ alphabets
class Alphabet:
    """a partition of the characters that no set of the given automata splits"""

    def __init__(self, sets, singles=()):
        sets = list(dict.fromkeys(sets))
        cuts = {0, MAXCP + 1}
        for s in sets:
            for a, b in s:
                cuts.add(a)
                cuts.add(b + 1)
        for c in singles:
            cuts.add(c)
            cuts.add(c + 1)
        cuts = sorted(cuts)
        idx = {}
        self.rep, self.members = [], {s: set() for s in sets}
        pos = [0] * len(sets)
        self.cells = []
        self.size = []
        for a, b in zip(cuts, cuts[1:]):
            sig = []
            for i, s in enumerate(sets):
                while pos[i] < len(s) and s[pos[i]][1] < a:
                    pos[i] += 1
                sig.append(pos[i] < len(s) and s[pos[i]][0] <= a)
            if b - a == 1 and a in singles:
                sig.append(a)
            sig = tuple(sig)
            k = idx.get(sig)
            if k is None:
                k = idx[sig] = len(self.rep)
                self.rep.append(a)
                self.size.append(0)
                for i, s in enumerate(sets):
                    if sig[i]:
                        self.members[s].add(k)
            self.size[k] += b - a
            # a printable representative
            r = self.rep[k]
            if not chr(r).isprintable() and any(chr(x).isprintable() for x in range(a, min(b, a + 128))):
                self.rep[k] = next(x for x in range(a, min(b, a + 128)) if chr(x).isprintable())
            self.cells.append((a, b - 1, k))
        self.n = len(self.rep)
        self.all = frozenset(range(self.n))

    def intervals(self, letters):
        ls = set(letters)
        return norm([(a, b) for a, b, k in self.cells if k in ls])

    def of(self, s):
        return self.members[s]


def sets_of(nfa):
    out, singles = [], set()
    for es in nfa.edges:
        for k, arg, b in es:
            if k == "set":
                out.append(arg)
            elif k in ("la", "lb"):
                out.append(arg[0])
            elif k == "cap":
                out.append(arg[1])
                size = sum(y - x + 1 for x, y in arg[1])
                if size > 64:
                    raise RxError("a back reference to too many characters")
                for x, y in arg[1]:
                    singles |= set(range(x, y + 1))
    return out, singles


END = -1
START = -2


class Auto:
    """configurations of an automaton over an alphabet: (state, allowed next letters or None, closed groups, captures)"""

    def __init__(self, nfa, alpha):
        self.n, self.a = nfa, alpha
        self.memo = {}

    def closure(self, configs, prev):
        """all configurations reachable without reading"""
        out, todo = set(configs), list(configs)
        while todo:
            c = todo.pop()
            for d in self.eps(c, prev):
                if d not in out:
                    out.add(d)
                    todo.append(d)
        return frozenset(out)

    def eps(self, c, prev):
        for kind, arg, b in self.n.edges[c[0]]:
            yield from self.eps_edge(c, prev, kind, arg, b)

    def eps_edge(self, c, prev, kind, arg, b):
        q, allow, closed, caps = c
        if kind in ("eps", "loop"):
            yield (b, allow, closed, caps)
        elif kind == "start":
            if prev == START:
                yield (b, allow, closed, caps)
        elif kind == "end":
            x = frozenset((END,)) if allow is None else allow & {END}
            if x:
                yield (b, x, closed, caps)
        elif kind == "la":
            cs, neg = arg
            s = frozenset(self.a.of(cs))
            s = (self.a.all - s) | {END} if neg else s
            x = s if allow is None else allow & s
            if x:
                yield (b, x, closed, caps)
        elif kind == "lb":
            cs, neg = arg
            if (prev in self.a.of(cs)) != neg:
                yield (b, allow, closed, caps)
        elif kind == "close":
            yield (b, allow, closed | {arg}, caps)
        elif kind == "if":
            if (arg[0] in closed) == arg[1]:
                yield (b, allow, closed, caps)
    def step(self, c, letter):
        q, allow, closed, caps = c
        if allow is not None and letter not in allow:
            return
        for kind, arg, b in self.n.edges[q]:
            if kind == "set":
                if letter in self.a.of(arg):
                    yield (b, None, closed, caps)
            elif kind == "cap":
                if letter in self.a.of(arg[1]):
                    d = dict(caps)
                    d[arg[0]] = letter
                    yield (b, None, closed, tuple(sorted(d.items())))
            elif kind == "back":
                if dict(caps).get(arg) == letter:
                    yield (b, None, closed, caps)

    def initial(self):
        return self.closure([(self.n.start, None, frozenset(), ())], START)

    def next(self, S, letter):
        k = (S, letter)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.closure([d for c in S for d in self.step(c, letter)], letter)
        return r

    def accepts(self, S):
        return any(q == self.n.accept and (allow is None or END in allow) for q, allow, _, _ in S)


# ------------------------------------------------------------------ combined languages
class Lang:
    """a deterministic recogniser over a shared alphabet, built lazily"""

    def __init__(self, nfa):
        self.nfa = nfa


def compare(patterns, formula_a, formula_b, restrict=None, extra_sets=(), limit=200000):
    """a shortest text on which two boolean combinations of patterns (and of facts about the
    text) differ, or None.  A formula takes a function from a pattern index to bool."""
    nfas = [p if isinstance(p, Nfa) else build(p) for p in patterns]
    sets, singles = list(extra_sets), set()
    for n in nfas:
        s, g = sets_of(n)
        sets += s
        singles |= g
    al = Alphabet(sets, singles)
    autos = [Auto(n, al) for n in nfas]
    letters = [x for x in range(al.n) if restrict is None or restrict(al.rep[x])]
    start = tuple(a.initial() for a in autos)
    seen = {start: None}
    todo = [start]
    i = 0
    while i < len(todo):
        S = todo[i]
        i += 1
        val = [a.accepts(s) for a, s in zip(autos, S)]
        if formula_a(val) != formula_b(val):
            w = []
            cur = S
            while seen[cur] is not None:
                cur, l = seen[cur]
                w.append(chr(al.rep[l]))
            return "".join(reversed(w)), len(seen), al.n
        for l in letters:
            N = tuple(a.next(s, l) for a, s in zip(autos, S))
            if N not in seen:
                seen[N] = (S, l)
                todo.append(N)
                if len(seen) > limit:
                    raise RxError("more than %d states" % limit)
    return None, len(seen), al.n


# ------------------------------------------------------------------ exponential ambiguity
def ambiguity(pattern, flags=0):
    """None, or a description of a loop that can match some text in two ways"""
    n = pattern if isinstance(pattern, Nfa) else build(pattern, flags)
    sets, singles = sets_of(n)
    al = Alphabet(sets, singles)
    au = Auto(n, al)

    # positions: configurations right after reading a letter, with that letter (for look-behind)
    def moves(c, prev):
        """{letter: {next: ways}} counting the different ways without reading, each state at most once on a way"""
        out = {}
        count = [0]

        def walk(d, path, seen):
            count[0] += 1
            if count[0] > 20000:
                raise RxError("too many ways through the pattern")
            for l in (range(al.n) if d[1] is None else d[1]):
                if l == END:
                    continue
                for e in au.step(d, l):
                    k = (e, l if behind else None)
                    out.setdefault(l, {})
                    out[l][k] = out[l].get(k, 0) + 1
            for i, (kind, arg, b) in enumerate(n.edges[d[0]]):
                # an iteration of a loop that reads nothing is not repeated
                if kind in ("set", "cap", "back") or (d[0], i) in path or kind == "loop" and b in seen:
                    continue
                for e in au.eps_edge(d, prev, kind, arg, b):
                    walk(e, path | {(d[0], i)}, seen | {b})
        walk(c, frozenset(), frozenset((c[0],)))
        return out
    behind = any(k == "lb" for es in n.edges for k, _, _ in es)
    init = ((n.start, None, frozenset(), ()), START)
    graph, todo = {}, [init]
    while todo:
        x = todo.pop()
        if x in graph:
            continue
        prev = x[1] if x[1] is not None else -3
        if x is init:
            prev = START
        graph[x] = moves(x[0], prev)
        for l, ts in graph[x].items():
            for t in ts:
                if t not in graph:
                    todo.append(t)
        if len(graph) > 5000:
            raise RxError("too many positions")
    # strongly connected components
    succ = {x: {t for ts in m.values() for t in ts} for x, m in graph.items()}
    comp = scc(succ)
    loops = {}
    for x, c in comp.items():
        loops.setdefault(c, []).append(x)
    pairs = 0
    for c, xs in loops.items():
        inside = set(xs)
        if len(xs) == 1 and xs[0] not in succ[xs[0]]:
            continue
        for x in xs:
            for l, ts in graph[x].items():
                for t, k in ts.items():
                    if t in inside and k > 1:
                        return dict(loop=chr(al.rep[l]), positions=len(graph), pairs=pairs, sample=chr(al.rep[l]))
        # pairs of positions reading the same text
        ps, todo = {}, [(x, x) for x in xs]
        while todo:
            p = todo.pop()
            if p in ps:
                continue
            ps[p] = set()
            for l, ts in graph[p[0]].items():
                us = graph[p[1]].get(l)
                if not us:
                    continue
                for t in ts:
                    if t in inside:
                        for u in us:
                            if u in inside:
                                q = (t, u)
                                ps[p].add(q)
                                if q not in ps:
                                    todo.append(q)
        pairs += len(ps)
        cc = scc(ps)
        diag = {cc[(x, x)] for x in xs}
        for (x, y), k in cc.items():
            if x != y and k in diag:
                # a component containing both a diagonal pair and (x, y)
                if any(cc[(z, z)] == k for z in xs):
                    word = [chr(al.rep[l]) for l, ts in graph[x].items() if any(t in inside for t in ts)]
                    return dict(loop="".join(sorted(word))[:12], positions=len(graph), pairs=pairs, sample=word[0] if word else "")
    return dict(loop=None, positions=len(graph), pairs=pairs, sample=None)


def scc(succ):
    index, low, stack, on, comp = {}, {}, [], set(), {}
    counter = [0, 0]
    for root in succ:
        if root in index:
            continue
        work = [(root, iter(succ[root]))]
        index[root] = low[root] = counter[0]
        counter[0] += 1
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in succ:
                    continue
                if w not in index:
                    index[w] = low[w] = counter[0]
                    counter[0] += 1
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(succ[w])))
                    adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], index[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == index[v]:
                while True:
                    w = stack.pop()
                    on.discard(w)
                    comp[w] = counter[1]
                    if w == v:
                        break
                counter[1] += 1
    return comp


def matches(pattern, text, flags=0):
    """does the pattern match the whole text (used to fold constants)"""
    n = pattern if isinstance(pattern, Nfa) else build(pattern, flags)
    sets, singles = sets_of(n)
    al = Alphabet(sets + [((ord(c), ord(c)),) for c in set(text)], singles)
    au = Auto(n, al)
    S = au.initial()
    for c in text:
        S = au.next(S, next(iter(al.of(((ord(c), ord(c)),)))))
    return au.accepts(S)


def group_always(pattern, g):
    """does a group always take part in a match; None when there is no such group"""
    tree, props = parse(pattern)
    if isinstance(g, str):
        g = tree.state.groupdict.get(g)
    if g == 0:
        return True
    if g is None or g < 0 or g >= tree.state.groups:
        return None

    def sure(t):
        for op, av in t:
            s = str(op)
            if s == "SUBPATTERN":
                if av[0] == g or sure(av[3]):
                    return True
            elif s in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                # an optional part that can read nothing is never skipped when it is tried first
                if (av[0] >= 1 or s == "MAX_REPEAT" and av[2].getwidth()[0] == 0) and sure(av[2]):
                    return True
            elif s == "BRANCH":
                if all(sure(x) for x in av[1]):
                    return True
            elif s == "ATOMIC_GROUP":
                if sure(av):
                    return True
        return False
    return sure(tree)
