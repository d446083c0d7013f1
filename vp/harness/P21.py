# P21: exactly the dialects with the highest product of scores are selected
# parameters: N (how many potential dialects), ORDER, SKIP, ENTRY
from clevercsv.consistency import ConsistencyDetector, detect_dialect_consistency
from clevercsv.dialect import SimpleDialect

ALL = [SimpleDialect(",", "", ""), SimpleDialect(";", '"', ""), SimpleDialect("|", "", ""), SimpleDialect("\t", "", "")]
GIVEN = [ALL[i] for i in ORDER]
DELIMS = __vp_pick("delimiters", None, "given")
if DELIMS is not None:
    DELIMS = [",", ";", "|", "\t"]
PS = [__vp_sym("P " + str(i), "float") for i in range(4)]
TS = [__vp_sym("T " + str(i), "float") for i in range(4)]
for i in range(4):
    __vp_assume(PS[i] >= 0 and TS[i] > 0 and TS[i] <= 1)
QS = [PS[i] * TS[i] for i in range(4)]
sample = __vp_sym("sample", "str")
ASKED = []
TIES = []


def number(d):
    for i in range(4):
        if d == ALL[i]:
            return i
    __vp_fail("stranger", "a dialect is scored that is no potential dialect", d)


def get_dialects(data, encoding="UTF-8", delimiters=None, test_masked_by_quotes=False):
    __vp_assert(__vp_same(data, sample), "sample", "the potential dialects are not those of the sample", data)
    if DELIMS is None:
        __vp_assert(delimiters is None, "delimiters", "delimiters are imposed that the caller did not ask for", delimiters)
    else:
        __vp_assert(delimiters is not None and len(delimiters) == 4 and "\t" in delimiters and "," in delimiters and ";" in delimiters and "|" in delimiters, "delimiters", "the caller's delimiters are not used", delimiters)
    return GIVEN


def pattern_score(data, dialect, eps=0.001):
    __vp_assert(__vp_same(data, sample), "sample", "the pattern score is not that of the sample", data)
    return PS[number(dialect)]


def type_score(self, data, dialect, eps=1e-10):
    __vp_assert(__vp_same(data, sample), "sample", "the type score is not that of the sample", data)
    i = number(dialect)
    ASKED.append(i)
    return TS[i]


def tie_breaker(data, dialects):
    __vp_assert(__vp_same(data, sample), "sample", "ties are broken for something else than the sample", data)
    ds = list(dialects)
    TIES.append([number(d) for d in ds])
    if len(ds) > 0 and __vp_pick("tie", "broken", "not broken") == "broken":
        return ds[-1]
    return None


__vp_patch("clevercsv.potential_dialects:get_dialects", get_dialects)
__vp_patch("clevercsv.detect_pattern:pattern_score", pattern_score)
__vp_patch("clevercsv.consistency:ConsistencyDetector.compute_type_score", type_score)
__vp_patch("clevercsv.break_ties:tie_breaker", tie_breaker)
__vp_stub("print", lambda *args, **kw: None)


def best():
    """the potential dialects whose score is not below another one's"""
    return [i for i in ORDER if not any(QS[i] < QS[j] for j in ORDER)]


verbose = __vp_pick("verbose", False, True)
if ENTRY == "detect":
    r = ConsistencyDetector(skip=SKIP, verbose=verbose).detect(sample, delimiters=DELIMS)
elif ENTRY == "function":
    r = detect_dialect_consistency(sample, delimiters=DELIMS, skip=SKIP, verbose=verbose)
else:
    scores = ConsistencyDetector(skip=SKIP, verbose=verbose).compute_consistency_scores(sample, GIVEN)
    want = best()
    __vp_assert(len(scores) == len(GIVEN), "entries", "not every potential dialect has an entry in the scores", len(scores))
    for d in GIVEN:
        i = number(d)
        s = scores[d]
        __vp_assert(__vp_same(s.P, PS[i]), "P", "the pattern score is recorded for the wrong dialect", s.P)
        if s.Q is None:
            __vp_assert(SKIP, "skip", "a dialect is skipped although skipping is off")
            __vp_assert(i not in want, "hidden", "one of the best dialects is skipped", i)
            __vp_reach("skipped")
        else:
            __vp_assert(__vp_same(s.T, TS[i]) and __vp_same(s.Q, QS[i]), "Q", "the score of a dialect is not the product of its pattern and type scores", s.T, s.Q)
    sel = ConsistencyDetector.get_best_dialects(scores)
    got = [number(d) for d in sel]
    for i in ORDER:
        __vp_assert(got.count(i) == (1 if i in want else 0), "selection", "the selected dialects are not exactly those with the highest score", got, want)
    __vp_reach("scores")
if ENTRY != "scores":
    want = best()
    if len(want) == 1:
        __vp_assert(TIES == [] or TIES == [want], "ties", "ties are broken although one dialect is the best", TIES)
        __vp_assert(r is not None and number(r) == want[0], "result", "the result is not the dialect with the highest score", r, want)
        __vp_reach("unique")
    elif len(want) == 0:
        __vp_assert(r is None, "nothing", "a dialect is detected although there is no potential dialect", r)
        __vp_reach("nothing")
    else:
        __vp_assert(len(TIES) == 1, "ties", "tied dialects are not given to tie breaking exactly once", TIES)
        for i in ORDER:
            __vp_assert(TIES[0].count(i) == (1 if i in want else 0), "tied", "the tied dialects are not exactly those with the highest score", TIES[0], want)
        __vp_assert(r is None or number(r) in want, "result", "the result is none of the best dialects", r)
        __vp_reach("tie")
