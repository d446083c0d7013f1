# P36: the potential dialects of a sample follow the documented rules
# parameters: DATA (pattern of the sample: letters are unknown characters, others stand for themselves),
#             NOURL (the sample without URLs, or None for no URL), GIVEN (delimiters as such a pattern, or None), ENC
import unicodedata
from clevercsv.potential_dialects import get_dialects
from clevercsv.escape import is_potential_escapechar

KNOWN = []


def unknown(name):
    for n, c in KNOWN:
        if n == name:
            return c
    c = __vp_sym(name, "str")
    __vp_assume(len(c) == 1)
    KNOWN.append((name, c))
    return c


def text(pattern):
    return "".join([unknown(c) if c in "abcdefgh" else c for c in pattern])


data = text(DATA)
no_url = data if NOURL is None else None
given = None if GIVEN is None else [unknown(c) if c in "abcdefgh" else c for c in GIVEN]


def regex_use(what, pattern, *args, **kw):
    __vp_assert(what == "sub", "regex", "a regular expression is used in an unknown way", what)
    repl, where = args[0], args[1]
    __vp_assert(__vp_same(where, data), "urls", "URLs are removed from something else than the sample", where)
    __vp_reach("urls")
    if NOURL is None:
        return where
    parts = NOURL.split("U")
    return repl.join([text(p) for p in parts])


__vp_stub("regex", regex_use)
given_now = None if given is None else list(given)
args = {} if ENC is None else {"encoding": ENC}
result = get_dialects(data, delimiters=given_now, **args) if given is not None or __vp_pick("delimiters", "omitted", "None") == "None" else get_dialects(data, **args)

BLOCKED = [".", "/", '"', "'", "\n", "\r"]
BLOCKED_CATEGORIES = ["Lu", "Ll", "Lt", "Lm", "Lo", "Nd", "Nl", "No", "Ps", "Pe", "Co"]
NO_ESCAPE = ["!", "?", '"', "'", ".", ",", ";", ":", "%", "*", "&", "#"]
clean = data if NOURL is None else "".join([text(p) for p in NOURL.split("U")])


def delimiter_ok(x):
    if given is not None:
        return any(x == g for g in given)
    return x == "\t" or (not any(x == b for b in BLOCKED) and not any(unicodedata.category(x) == b for b in BLOCKED_CATEGORIES))


def add(x, l):
    if not any(x == y for y in l):
        l.append(x)


delims = [""]
quotes = [""]
for x in clean:
    if delimiter_ok(x):
        add(x, delims)
    if x == '"' or x == "'" or x == "~" or x == "`":
        add(x, quotes)
want = []
for d in delims:
    for q in quotes:
        escapes = [""]
        for i in range(len(data) - 1):
            u, v = data[i], data[i + 1]
            if (v == d or v == q) and unicodedata.category(u) == "Po" and not any(u == b for b in NO_ESCAPE):
                add(u, escapes)
        for e in escapes:
            want.append((d, q, e))
got = [(x.delimiter, x.quotechar, x.escapechar) for x in result]
for w in want:
    n = 0
    for g in got:
        if g[0] == w[0] and g[1] == w[1] and g[2] == w[2]:
            n = n + 1
    __vp_assert(n >= 1, "missing", "a combination of candidates is no potential dialect: delimiter, quote, escape", w, data)
    __vp_assert(n == 1, "twice", "a potential dialect is listed twice: delimiter, quote, escape", w, data)
for g in got:
    __vp_assert(any(g[0] == w[0] and g[1] == w[1] and g[2] == w[2] for w in want), "extra", "a potential dialect breaks the rules: delimiter, quote, escape", g, data)
__vp_assert(not any(x.strict for x in result), "strict", "a potential dialect is strict")
__vp_assert(given is None or (len(given_now) == len(given) and all(__vp_same(given_now[i], given[i]) for i in range(len(given)))), "argument", "the list of delimiters is modified")
__vp_reach("dialects")
if len(want) > 1:
    __vp_reach("several")
if any(w[2] != "" for w in want):
    __vp_reach("escape")
