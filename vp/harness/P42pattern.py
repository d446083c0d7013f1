# P42: the pattern score of an abstraction
# parameters: TEXTS (abstractions)
from clevercsv.detect_pattern import pattern_score
from clevercsv.dialect import SimpleDialect

sample = __vp_sym("sample", "str")
delim = __vp_sym("delimiter", "str")
quote = __vp_sym("quotechar", "str")
escape = __vp_sym("escapechar", "str")
basic = __vp_sym("basic abstraction", "str")
A = __vp_pick("abstraction", *TEXTS)


def base_abstraction(data, delimiter, quotechar, escapechar):
    __vp_assert(__vp_same(data, sample) and __vp_same(delimiter, delim) and __vp_same(quotechar, quote) and __vp_same(escapechar, escape), "arguments", "the abstraction is not that of the sample and the dialect", data, delimiter, quotechar, escapechar)
    return basic


def merge(text):
    __vp_assert(__vp_same(text, basic), "merge", "something else than the abstraction is merged", text)
    return A


def collapse(cell):
    out = ""
    for c in cell:
        if not (c == "C" and out[-1:] == "C"):
            out = out + c
    return out


def score(text, eps):
    while text[-1:] == "R":
        text = text[:-1]
    seen = []
    counts = []
    for row in text.split("R"):
        cells = [collapse(c) for c in row.split("D")]
        if len(cells) > 1:
            cells = ["C" if c == "" else c for c in cells]
        if cells in seen:
            counts[seen.index(cells)] += 1
        else:
            seen.append(cells)
            counts.append(1)
    p = 0.0
    for i in range(len(seen)):
        n = len(seen[i])
        p = p + counts[i] * ((n - 1 if n - 1 > eps else eps) / n)
    return p / len(seen)


__vp_stub("clevercsv.cabstraction.base_abstraction", base_abstraction)
__vp_stub("clevercsv.cabstraction.c_merge_with_quotechar", merge)
p = pattern_score(sample, SimpleDialect(delim, quote, escape))
want = score(A, 0.001)
__vp_assert(abs(p - want) < 1e-9, "pattern score", "the pattern score does not follow from the row patterns", A, p, want)
__vp_reach("pattern score")
