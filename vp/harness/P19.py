# P19: detection returns only dialects it was allowed to consider
# parameters: DATA (pattern: letters a-h are unknown characters), GIVEN (delimiters as a pattern, or None),
#             FORM (list, tuple, string, iterator), ENTRY
import unicodedata
from clevercsv.consistency import ConsistencyDetector, detect_dialect_consistency
from clevercsv.normal_form import detect_dialect_normal
from clevercsv.potential_dialects import get_dialects

KNOWN = []


def unknown(name):
    for n, c in KNOWN:
        if n == name:
            return c
    c = __vp_sym(name, "str")
    __vp_assume(len(c) == 1)
    KNOWN.append((name, c))
    return c


def text(pattern):
    return "".join([unknown(c) if c in "abcdefgh" else c for c in pattern])


data = text(DATA)
allowed = None
if GIVEN is not None:
    allowed = [unknown(c) if c in "abcdefgh" else c for c in GIVEN]


def delimiters():
    if allowed is None:
        return None
    if FORM == "tuple":
        return tuple(allowed)
    if FORM == "string":
        return "".join(allowed)
    if FORM == "iterator":
        return iter(list(allowed))
    return list(allowed)


SCORED = []
how = __vp_pick("the best dialect is", "the first", "the second", "the last scored", "all", "none of them")


def pattern_score(data, dialect, eps=0.001):
    SCORED.append(dialect)
    if how == "all":
        return 1.0
    if how == "the first":
        return 1.0 if len(SCORED) == 1 else 0.5
    if how == "the second":
        return 1.0 if len(SCORED) == 2 else 0.5
    if how == "the last scored":
        return 1.0 * len(SCORED)
    return float("nan")


def tie_breaker(data, dialects):
    ds = list(dialects)
    which = __vp_pick("tie", "not broken", "first", "last")
    if which == "not broken" or len(ds) == 0:
        return None
    return ds[0] if which == "first" else ds[-1]


__vp_stub("regex sub", lambda repl, where, *args, **kw: where)
__vp_patch("clevercsv.detect_pattern:pattern_score", pattern_score)
__vp_patch("clevercsv.consistency:ConsistencyDetector.compute_type_score", lambda self, data, dialect, eps=1e-10: 1.0)
__vp_patch("clevercsv.break_ties:tie_breaker", tie_breaker)
__vp_stub("print", lambda *args, **kw: None)
potential = list(get_dialects(data, delimiters=allowed))
if ENTRY == "detect":
    r = clevercsv.Detector().detect(data, delimiters=delimiters())
elif ENTRY == "sniff":
    r = clevercsv.Detector().sniff(data, delimiters=delimiters())
elif ENTRY == "normal":
    r = clevercsv.Detector().detect(data, delimiters=delimiters(), method="normal")
elif ENTRY == "consistency":
    r = clevercsv.Detector().detect(data, delimiters=delimiters(), method="consistency")
elif ENTRY == "function":
    r = detect_dialect_consistency(data, delimiters=delimiters())
else:
    det = clevercsv.Detector()
    det.detect("x;y\nz;w", delimiters=[";"])
    r = det.detect(data, delimiters=delimiters())
__vp_reach("asked " + ENTRY)
if r is None:
    __vp_reach("none")
else:
    __vp_reach("found " + ENTRY)
    if allowed is not None:
        __vp_assert(r.delimiter == "" or any(r.delimiter == x for x in allowed), "delimiter", "the detected delimiter is not among the given ones", r.delimiter, allowed, data)
    else:
        __vp_assert(r.delimiter == "" or any(r.delimiter == x for x in data), "sample", "the detected delimiter does not occur in the sample", r.delimiter, data)
    __vp_assert(r.quotechar == "" or ((r.quotechar == '"' or r.quotechar == "'" or r.quotechar == "~" or r.quotechar == "`") and any(r.quotechar == x for x in data)), "quote", "the detected quote character is no candidate that occurs in the sample", r.quotechar, data)
    if ENTRY in ("consistency", "function") or (SCORED != [] and ENTRY != "again"):
        n = 0
        for x in potential:
            if x.delimiter == r.delimiter and x.quotechar == r.quotechar and x.escapechar == r.escapechar:
                n = n + 1
        __vp_assert(n > 0, "potential", "the detected dialect is not one of the potential dialects", r.delimiter, r.quotechar, r.escapechar, data)
        __vp_assert(not r.strict, "strict", "a detected dialect is strict")
        __vp_reach("by consistency")
    else:
        __vp_reach("by normal form")
