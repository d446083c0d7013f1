# -*- coding: utf-8 -*-
"""Checks decided on the automata of the package's regular expressions."""
import ast
import re

from . import check_py, pyprog, rx
from .check_py import close

ANY = "(?:.|\n)*"


# ------------------------------------------------------------------ what a path knows, as languages
def subject(t):
    """(stripped, True) when a term is the text itself or the stripped text"""
    if t == ("t", "arg", "cell", "str"):
        return "plain"
    if t[0] == "t" and t[1] == "str.strip" and len(t) == 3 and subject(t[2]):
        return "stripped"
    return None


def char_set(fact):
    """(term, pattern of one character) of a fact about one character"""
    if fact[1] == "str.isdigit" and len(fact) == 3:
        return fact[2], r"\p{vp_isdigit}"
    if fact[1] == "str.isspace" and len(fact) == 3:
        return fact[2], r"\p{vp_space}"
    if fact[1] == "eq":
        for a, b in ((fact[2], fact[3]), (fact[3], fact[2])):
            if b[0] == "k" and isinstance(b[2], str) and len(b[2]) == 1 and a[0] == "t" and a[1] == "item":
                return a, re.escape(b[2])
    return None, None


def language(fact):
    """(subject, pattern) such that the fact holds exactly when the subject is in the language; None for facts that say nothing"""
    op = fact[1]
    if op == "rx":
        what, pat, s = fact[2][2], fact[3][2], fact[4]
        p = {"fullmatch": "(?:%s)", "match": "(?:%s)" + ANY, "search": ANY + "(?:%s)" + ANY}[what] % pat
        return s, p
    c, p = char_set(fact)
    if c is not None and c[0] == "t" and c[1] == "item" and c[3][0] == "k" and subject(c[2]):
        i = c[3][2]
        if i >= 0:
            return c[2], "(?:.|\n){%d}(?:%s)%s" % (i, p, ANY)
        return c[2], "%s(?:%s)(?:.|\n){%d}" % (ANY, p, -i - 1)
    if op == "eq":
        for a, b in ((fact[2], fact[3]), (fact[3], fact[2])):
            if b[0] == "k" and isinstance(b[2], str) and subject(a):
                return a, re.escape(b[2])
            if b[0] == "k" and isinstance(b[2], int) and a[0] == "t" and a[1] == "len" and subject(a[2]):
                return a[2], "(?:.|\n){%d}" % b[2]
    if op == "truth" and subject(fact[2]):
        return fact[2], "(?:.|\n)+"
    if op == "lt":
        a, b = fact[2], fact[3]
        if a[0] == "k" and b[0] == "t" and b[1] == "len" and subject(b[2]) and isinstance(a[2], int):
            return b[2], "(?:.|\n){%d,}" % (a[2] + 1)
        if b[0] == "k" and a[0] == "t" and a[1] == "len" and subject(a[2]) and isinstance(b[2], int):
            return a[2], "(?:.|\n){0,%d}" % (b[2] - 1) if b[2] > 0 else "(?!.)."
    if op in ("in", "contains"):
        for a, b in ((fact[2], fact[3]), (fact[3], fact[2])):
            if b[0] == "k" and subject(a):
                return a, ANY + re.escape(b[2]) + ANY
    if op in ("str.startswith", "str.endswith") and len(fact) == 4 and fact[3][0] == "k" and subject(fact[2]):
        return fact[2], re.escape(fact[3][2]) + ANY if op == "str.startswith" else ANY + re.escape(fact[3][2])
    raise pyprog.Anchor("the analysis gives no answer: recognition depends on something that is no regular fact: %r" % (fact,))


def decide_language(rep, what, spec, strip, pid, where, meaning):
    """compares the texts a method recognises with a documented language"""
    res = check_py.run(rep, ("P24", dict(WHAT=what, STRIP=strip), "strworld:FactWorld"), expect=("decided",), floor=0)
    if rep.violations:
        return
    paths = res[0]["data"]
    atoms, pats = {}, []
    table = []
    for answer, facts in paths:
        row = []
        for f, v in facts:
            s, p = language(f)
            k = (subject(s), p)
            if k not in atoms:
                atoms[k] = len(pats)
                pats.append(rx.padded(p) if k[0] == "stripped" else rx.build(p))
            row.append((atoms[k], v))
        table.append((answer, row))
    i = len(pats)
    pats.append(rx.padded(spec) if strip is not False else rx.build(spec))

    def found(val):
        r = {a for a, row in table if all(val[j] == v for j, v in row)}
        if len(r) != 1:
            raise pyprog.Anchor("the analysis gives no answer: the paths do not decide a text")
        return r.pop()
    nonascii = ((0x80, rx.MAXCP),)
    w, states, letters = rx.compare(pats, found, lambda val: val[i], restrict=lambda c: not (c > 127 and chr(c).isdigit()),
                                    extra_sets=[nonascii, rx.predicate("isdigit")])
    rep.count("paths compared with the documented language", len(table))
    rep.count("states of the product automaton", states)
    rep.count("character classes", letters)
    if w is None:
        rep.obligations += 1
        rep.discharged += 1
    else:
        n = rx.padded(spec) if strip is not False else rx.build(spec)
        ok = rx.matches(n, w)
        rep.obligations += 1
        rep.violation("%s:%s" % (pid, what), where, "%s %s is %s" % (meaning, ascii(w), "not recognised" if ok else "wrongly recognised"),
                      "shortest text on which the recognised language differs from the documented one (strip_whitespace=%s)" % strip)


def where_of(mod, name):
    prog = pyprog.program()
    tree = prog.trees[mod] if hasattr(prog, "trees") else ast.parse(open(prog.files[mod][0], encoding="utf-8").read())
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name == name:
            return "%s:%d" % (prog.files[mod][2], n.lineno)
    return "%s:1" % prog.files[mod][2]


def date_language():
    """the documented formats, written down independently of the package"""
    year = r"(?:[12][0-9]{3}|[0-9]{2})"
    mm, dd = "(?:0[1-9]|1[0-2])", "(?:0[1-9]|[12][0-9]|3[01])"
    m, d = "(?:[1-9]|1[0-2])", "(?:[1-9]|[12][0-9]|3[01])"
    am, ad = "(?:%s|%s)" % (mm, m), "(?:%s|%s)" % (dd, d)
    alts = [dd + mm + year, mm + dd + year, year + mm + dd]
    for sep in ("-", r"\.", "/", " "):
        alts += [ad + sep + am + sep + year, am + sep + ad + sep + year, year + sep + am + sep + ad]
    alts += [year + "\u5e74" + am + "\u6708" + ad + "\u65e5", year + "\ub144" + am + "\uc6d4" + ad + "\uc77c"]
    return "|".join("(?:%s)" % a for a in alts)


def time_language():
    hh, h, x = "(?:[01][0-9]|2[0-3])", "[0-9]", "[0-5][0-9]"
    return "|".join(["%s:%s" % (h, x), "%s:%s" % (hh, x), "%s:%s:%s" % (hh, x, x), "%s:%s:%s[+-][01][0-9]:%s" % (hh, x, x, x)])


def p24(rep):
    rep.rules.append("abstract interpretation of the recognisers of dates and times over an unknown text; what every path asks of the text is a regular language, and the union of the accepting paths is compared "
                     "with the documented language by exploring the product of the automata")
    try:
        for strip in (None, True, False):
            decide_language(rep, "is_date", date_language(), strip, "P24", where_of("clevercsv.detect_type", "is_date"), "the date")
            decide_language(rep, "is_time", time_language(), strip, "P24", where_of("clevercsv.detect_type", "is_time"), "the time")
    except rx.RxError as e:
        raise pyprog.Anchor("the analysis gives no answer: %s" % e)
    close(rep)


# ------------------------------------------------------------------ the patterns of the package
class NotConstant(Exception):
    pass


class Consts:
    """evaluates constant text expressions from the syntax trees"""

    def __init__(self, prog):
        self.prog = prog
        self.trees = {m: ast.parse(prog.source(m)) for m in prog.files}
        self.depth = 0

    def module_names(self, mod):
        out = {}
        for s in self.trees[mod].body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        out.setdefault(t.id, []).append(s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                out.setdefault(s.target.id, []).append(s.value)
            elif isinstance(s, ast.ImportFrom):
                src = s.module or ""
                if s.level:
                    base = mod.split(".")
                    base = base[:len(base) - s.level] if not self.prog.files[mod][1] else base[:len(base) - s.level + 1]
                    src = ".".join(base + ([src] if src else []))
                for a in s.names:
                    out.setdefault(a.asname or a.name, []).append(("from", src, a.name))
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                out.setdefault(s.target.id, []).append(("aug", s))
        return out

    def value(self, mod, e, local=None):
        self.depth += 1
        try:
            if self.depth > 60:
                raise NotConstant("too deep")
            return self._value(mod, e, local or {})
        finally:
            self.depth -= 1

    def _value(self, mod, e, local):
        if isinstance(e, tuple):
            if e[0] == "from" and e[1] in self.trees:
                return self.name(e[1], e[2], {})
            raise NotConstant("name")
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            return self.name(mod, e.id, local)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return [self.value(mod, x, local) for x in e.elts]
        if isinstance(e, ast.BinOp):
            a, b = self.value(mod, e.left, local), self.value(mod, e.right, local)
            if isinstance(e.op, ast.Add):
                return a + b
            if isinstance(e.op, ast.Mod):
                return a % (tuple(b) if isinstance(b, list) else b)
            if isinstance(e.op, ast.Mult):
                return a * b
            if isinstance(e.op, ast.BitOr) and isinstance(a, int) and isinstance(b, int):
                return a | b
        if isinstance(e, ast.JoinedStr):
            return "".join(x.value if isinstance(x, ast.Constant) else format(self.value(mod, x.value, local)) for x in e.values)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ("re", "regex") and hasattr(re, e.attr):
            return int(getattr(re, e.attr))
        if isinstance(e, ast.Attribute) and e.attr == "pattern":
            return self.value(mod, e.value, local)
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute):
                if f.attr == "escape":
                    return re.escape(self.value(mod, e.args[0], local))
                if f.attr == "compile" and e.args:
                    return self.value(mod, e.args[0], local)
                if f.attr == "join":
                    return self.value(mod, f.value, local).join(self.value(mod, e.args[0], local))
                if f.attr == "format":
                    return self.value(mod, f.value, local).format(*[self.value(mod, a, local) for a in e.args], **{k.arg: self.value(mod, k.value, local) for k in e.keywords})
            if isinstance(f, ast.Name) and f.id == "chr":
                return chr(self.value(mod, e.args[0], local))
            if isinstance(f, ast.Name) and f.id in ("list", "tuple", "sorted", "set") and len(e.args) == 1:
                return list(self.value(mod, e.args[0], local))
        raise NotConstant(ast.unparse(e)[:80])

    def name(self, mod, n, local):
        if n in local:
            if len(local[n]) != 1:
                raise NotConstant(n)
            return self.value(mod, local[n][0], {})
        vals = self.module_names(mod).get(n, [])
        if len(vals) != 1:
            raise NotConstant(n)
        return self.value(mod, vals[0], {})


USES = {"compile", "match", "search", "fullmatch", "sub", "subn", "split", "findall", "finditer"}


def pattern_sites(prog):
    """(file:line, pattern text or None, flags, expression) of every regular expression of the package"""
    c = Consts(prog)
    out = []
    for mod in sorted(prog.files):
        tree = c.trees[mod]
        mods, funcs = set(), set()
        for s in ast.walk(tree):
            if isinstance(s, ast.Import):
                mods |= {a.asname or a.name for a in s.names if a.name in ("re", "regex")}
            elif isinstance(s, ast.ImportFrom) and s.module in ("re", "regex") and not s.level:
                funcs |= {a.asname or a.name for a in s.names if a.name in USES}
        if not mods and not funcs:
            continue
        owner = {}
        for fn in ast.walk(tree):
            if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for x in ast.walk(fn):
                    owner[x] = fn
        for s in ast.walk(tree):
            if not isinstance(s, ast.Call):
                continue
            f = s.func
            hit = isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in mods and f.attr in USES or isinstance(f, ast.Name) and f.id in funcs
            if not hit:
                continue
            local = {}
            if s in owner:
                for x in ast.walk(owner[s]):
                    if isinstance(x, ast.Assign):
                        for t in x.targets:
                            if isinstance(t, ast.Name):
                                local.setdefault(t.id, []).append(x.value)
            where = "%s:%d" % (prog.files[mod][2], s.lineno)
            what = f.attr if isinstance(f, ast.Attribute) else f.id
            arg = s.args[0] if s.args else next((k.value for k in s.keywords if k.arg == "pattern"), None)
            flags = 0
            try:
                fl = next((k.value for k in s.keywords if k.arg == "flags"), s.args[1] if what == "compile" and len(s.args) > 1 else None)
                if fl is not None:
                    flags = c.value(mod, fl, local)
                out.append((where, c.value(mod, arg, local), flags, ast.unparse(s)[:70], mod))
            except NotConstant as e:
                got = None
                if s in owner and isinstance(arg, ast.Name) and arg.id in params(owner[s]):
                    got = passed(c, prog, owner[s], arg.id)
                if got:
                    out += [(w, t, flags, ast.unparse(s)[:70], mod) for w, t in got]
                elif not (isinstance(arg, ast.Name) and arg.id in local and len(local[arg.id]) == 1 and is_pattern_use(local[arg.id][0], mods)):
                    out.append((where, None, 0, str(e), mod))
    return out


def params(fn):
    return [a.arg for a in fn.args.posonlyargs + fn.args.args]


def is_pattern_use(e, mods):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in mods


def passed(c, prog, fn, name):
    """what the calls of a helper pass for a parameter, if all of it is constant"""
    i = params(fn).index(name)
    out = []
    for mod in sorted(prog.files):
        for s in ast.walk(c.trees[mod]):
            if isinstance(s, ast.Call) and (isinstance(s.func, ast.Name) and s.func.id == fn.name or isinstance(s.func, ast.Attribute) and s.func.attr == fn.name):
                k = i - (1 if isinstance(s.func, ast.Attribute) and params(fn)[:1] in (["self"], ["cls"]) else 0)
                a = next((x.value for x in s.keywords if x.arg == name), s.args[k] if len(s.args) > k else None)
                if a is None:
                    return None
                try:
                    t = c.value(mod, a)
                except NotConstant:
                    return None
                if not isinstance(t, str):
                    return None
                out.append(("%s:%d" % (prog.files[mod][2], s.lineno), t))
    return out


def p23(rep):
    rep.rules.append("every pattern given to the regular expression libraries, evaluated from the syntax trees, is turned into an automaton; a loop that can read one text in two ways (ways without reading counted, "
                     "iterations that read nothing excluded) means exponential backtracking")
    prog = pyprog.program()
    sites = pattern_sites(prog)
    unknown = []
    for where, text, flags, what, mod in sites:
        if not isinstance(text, str):
            unknown.append((where, what))
            continue
        rep.obligations += 1
        try:
            todo, lenient = [(None, text)], []
            n = rx.build(text, flags & ~int(re.U), lenient=lenient)
            r = rx.ambiguity(n)
            found = r["loop"]
            for body in lenient:
                r2 = rx.ambiguity(rx.build(text, flags, lenient=[], tree_only=body))
                found = found or r2["loop"]
        except rx.RxError as e:
            raise pyprog.Anchor("the analysis gives no answer: %s: %s" % (where, e))
        rep.count("patterns")
        rep.count("positions", r["positions"])
        rep.count("pairs of positions", r["pairs"])
        rep.sample("%s: %d positions, %d pairs" % (where, r["positions"], r["pairs"]), 40)
        if found is None:
            rep.discharged += 1
        else:
            rep.violation("P23:%s" % text, where, "a loop of the pattern can read the same text in two ways, so failing matches take exponential time", "pattern %s\nrepeated characters: %s" % (text, ascii(found)))
    if len(sites) - len(unknown) < 10:
        raise pyprog.Anchor("only %d patterns were found" % (len(sites) - len(unknown)))
    if unknown and not rep.violations:
        raise pyprog.Anchor("the analysis gives no answer: a pattern is not constant: %s %s" % unknown[0])
    close(rep)


def p22(rep):
    rep.rules.append("abstract interpretation of every test of the type detection over an unknown text, of the detection with every outcome of the tests, and of every way reading json can fail")
    prog = pyprog.program()
    names = []
    for n in ast.walk(ast.parse(prog.source("clevercsv.detect_type"))):
        if isinstance(n, ast.ClassDef) and n.name == "TypeDetector":
            names = [f.name for f in n.body if isinstance(f, ast.FunctionDef) and f.name.startswith("is_") and f.name != "is_known_type"]
    if len(names) < 5:
        raise pyprog.Anchor("the tests of TypeDetector were not found")
    jobs = []
    for strip in (None, True, False):
        for q in (None, True, False):
            jobs.append(("P22", dict(STRIP=strip, QUOTED=q, NAMES=names), "strworld:FactWorld", dict(max_list=60, max_counter=100)))
            for n in names:
                jobs.append(("P22one", dict(NAME=n, STRIP=strip, QUOTED=q), "strworld:FactWorld", dict(max_list=60, max_counter=100)))
    rep.count("type tests", len(names))
    check_py.run(rep, *jobs, expect=("yes", "no", "known", "none"))
    close(rep)
