# P26: the overrides of the parsing helpers reach the parser
SEEN = []


class Parser:
    def __init__(self, data, delimiter=None, quotechar=None, escapechar=None, field_limit=None, strict=None, return_quoted=False):
        SEEN.append((data, delimiter, quotechar, escapechar, strict, return_quoted))

    def __iter__(self):
        return self

    def __next__(self):
        raise StopIteration


__vp_stub("clevercsv.cparser.Parser", Parser)
from clevercsv.cparser_util import parse_data, parse_string
from clevercsv.dialect import SimpleDialect


def char(name):
    c = __vp_sym(name, "str")
    __vp_assume(len(c) == 1)
    return c


which = __vp_pick("dialect", "none", "some")
base = SimpleDialect(char("d"), char("q"), char("e"), strict=__vp_pick("strict dialect", False, True))
kw = {}
for n in ("delimiter", "quotechar", "escapechar"):
    if __vp_pick(n, "given", "not given") == "given":
        kw[n] = char("given " + n)
s = __vp_pick("strict", None, True, False)
if s is not None:
    kw["strict"] = s
quoted = __vp_pick("return_quoted", None, False, True)
if quoted is not None:
    kw["return_quoted"] = quoted
text = __vp_sym("text", "str")
d = base if which == "some" else None
if HOW == "parse_string":
    list(parse_string(text, base, return_quoted=bool(quoted)))
    kw = {}
    which = "some"
    s = None
else:
    src = [text]
    list(parse_data(src, dialect=d, **kw))
__vp_assert(len(SEEN) == 1, "engine", "the data is not parsed exactly once")
x = SEEN[0]
strs = ("delimiter", "quotechar", "escapechar")
for i in range(3):
    want = kw[strs[i]] if strs[i] in kw else (getattr(base, strs[i]) if which == "some" else "")
    __vp_assert(__vp_same(x[i + 1], want) or (want == "" and x[i + 1] is None), "override", "the %s given does not reach the parser" % strs[i], x[i + 1], want)
want = s if s is not None else (base.strict if which == "some" else False)
__vp_assert(bool(x[4]) == want, "override", "the strictness given does not reach the parser", x[4])
__vp_assert(bool(x[5]) == bool(quoted), "override", "return_quoted does not reach the parser", x[5])
__vp_reach(HOW)
