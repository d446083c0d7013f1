# P20: tie breaking returns one of the tied dialects or None and follows its rules
# parameters: SHAPE ((delimiter, quote, escape) of each dialect, numbers and None standing for distinct unknown characters), LIKE (outcomes of parsing)
from clevercsv.break_ties import tie_breaker
from clevercsv.dialect import SimpleDialect

sample = __vp_sym("sample", "str")
SEEN = []          # (delimiter, quotechar, escapechar) -> what the parser gives


def char(name):
    c = __vp_sym(name, "str")
    __vp_assume(len(c) == 1)
    return c


def same(x, y):
    return (x or "") == (y or "")


class Parser:
    def __init__(self, data, delimiter=None, quotechar=None, escapechar=None, field_limit=None, strict=None, return_quoted=False):
        rows = None
        for s in SEEN:
            if same(s[0], delimiter) and same(s[1], quotechar) and same(s[2], escapechar):
                rows = s[3]
        if rows is None:
            like = __vp_pick("parses like", *LIKE)
            e = escapechar or "\\"
            q = quotechar or '"'
            rows = {"base": [["x", "y"]], "cell": [["x", "z"]], "shape": [["x", "y", "z"]], "count": [["x", "y"], ["z"]], "nothing": [],
                    "long": [["x", "y"]] * 130, "long cell": [["x", "y"]] * 129 + [["x", "z"]], "long shape": [["x", "y"]] * 129 + [["x", "y", "z"]],
                    "middle": [["x", "y"]] * 64 + [["x", "z"]] + [["x", "y"]] * 65, "longer": [["x", "y"]] * 131,
                    "quoted pair": [["x", "a" + e + q]], "two quoted pairs": [["x", e + q + "b" + e + q]]}[like]
            SEEN.append((delimiter, quotechar, escapechar, rows))
        self.rows = [list(r) for r in rows]
        self.flag = return_quoted

    def __iter__(self):
        return self

    def __next__(self):
        if not self.rows:
            raise StopIteration
        r = self.rows.pop(0)
        return [(c, False) for c in r] if self.flag else r


def result(d):
    """what the parser gave for a dialect, if it was asked"""
    for s in SEEN:
        if same(s[0], d.delimiter) and same(s[1], d.quotechar) and same(s[2], d.escapechar):
            return s[3]
    return None


__vp_stub("clevercsv.cparser.Parser", Parser)
Q = [char("quote" + str(i)) for i in range(4)]
E = [char("escape" + str(i)) for i in range(2)]
for i in range(4):
    for j in range(i):
        __vp_assume(Q[i] != Q[j])
__vp_assume(E[0] != E[1])
D = char("delimiter")
__vp_assume(D != "," and D != " " and D != "-")
N = len(SHAPE)
dialects = [SimpleDialect(D if d is None else d, Q[q - 1] if q else "", E[e - 1] if e else "") for d, q, e in SHAPE]
for i in range(N):
    for j in range(i):
        __vp_assume(dialects[i] != dialects[j])
given = list(dialects)
r = tie_breaker(sample, given)
__vp_assert(r is None or any(r is d for d in dialects) or any(r == d for d in dialects), "member", "the result is none of the tied dialects", r)
__vp_assert(len(given) == N and all(given[i] is dialects[i] for i in range(N)), "argument", "the list of tied dialects is modified")
if r is None:
    __vp_reach("none")
else:
    __vp_reach("broken")
if N < 2:
    __vp_assert(r is None or N == 1, "few", "a dialect is returned for no dialects")
if N == 2:
    a, b = dialects
    if a.delimiter == b.delimiter and a.escapechar == b.escapechar and (a.quotechar == "" or b.quotechar == ""):
        no = a if a.quotechar == "" else b
        yes = b if a.quotechar == "" else a
        x, y = result(no), result(yes)
        __vp_assert(x is not None and y is not None, "parse", "the results of parsing are not compared")
        __vp_assert(r is (no if x == y else yes), "quote", "with and without quote character: the wrong dialect is chosen", x, y)
        __vp_reach("quote rule")
    elif a.quotechar == b.quotechar and a.escapechar == b.escapechar:
        if (a.delimiter == "," and b.delimiter == " ") or (a.delimiter == " " and b.delimiter == ","):
            __vp_assert(r is (a if a.delimiter == "," else b), "comma", "comma against space: comma is not chosen", r)
            __vp_reach("comma rule")
        elif a.delimiter == "-" or b.delimiter == "-":
            __vp_assert(r is (b if a.delimiter == "-" else a), "hyphen", "hyphen against another delimiter: the other is not chosen", r)
            __vp_reach("hyphen rule")
