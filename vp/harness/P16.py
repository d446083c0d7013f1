# P16: the field size limit is the same after detection as before it, on every way out
# parameters: ENTRY, FAULT (which inner step fails, or None)
from clevercsv.consistency import ConsistencyDetector
from clevercsv.dialect import SimpleDialect


class Boom(Exception):
    pass


KIND = __vp_pick("kind of failure", "exception", "interrupt", "parse error") if FAULT else None


def step(name):
    if FAULT == name and __vp_pick("fails", True, False):
        if KIND == "exception":
            raise Boom()
        if KIND == "interrupt":
            raise KeyboardInterrupt()
        raise clevercsv.Error("failure")


LIMIT = __vp_sym("limit", "int")
__vp_assume(LIMIT > 0)
clevercsv.field_size_limit(LIMIT)
sample = __vp_sym("sample", "str")
A = SimpleDialect(",", "", "")
B = SimpleDialect(";", '"', "")


def get_dialects(data, encoding="UTF-8", delimiters=None, test_masked_by_quotechar=True):
    step("dialects")
    n = __vp_pick("potential dialects", 0, 1, 2)
    return [A, B][:n]


def pattern_score(data, dialect, eps=0.001):
    step("pattern")
    return __vp_new("P", "float")


def parse_rows(data, dialect, return_quoted=False):
    step("parsing")
    return [[("x", False)]]


def is_known_type(self, cell, is_quoted=False):
    step("type")
    return __vp_pick("known", True, False)


def tie_breaker(data, dialects):
    step("ties")
    if __vp_pick("tie", "broken", "not broken") == "broken":
        return A
    return None


def normal(data, encoding="UTF-8", delimiters=None, verbose=False):
    step("normal")
    if __vp_pick("normal form", "found", "none") == "found":
        return A
    return None


__vp_patch("clevercsv.potential_dialects:get_dialects", get_dialects)
__vp_patch("clevercsv.detect_pattern:pattern_score", pattern_score)
__vp_patch("clevercsv.detect_type:TypeDetector.is_known_type", is_known_type)
__vp_patch("clevercsv.break_ties:tie_breaker", tie_breaker)
__vp_patch("clevercsv.normal_form:detect_dialect_normal", normal)


class Parser:
    def __init__(self, data, delimiter=None, quotechar=None, escapechar=None, field_limit=None, strict=None, return_quoted=False):
        self.return_quoted = return_quoted
        self.left = 2

    def __iter__(self):
        return self

    def __next__(self):
        step("parsing")
        if self.left == 0:
            raise StopIteration
        self.left = self.left - 1
        return [("x", False)] if self.return_quoted else ["x"]


__vp_stub("clevercsv.cparser.Parser", Parser)
failed = False
try:
    if ENTRY == "detect":
        clevercsv.Detector().detect(sample, verbose=__vp_pick("verbose", False, True), skip=__vp_pick("skip", True, False))
    elif ENTRY == "consistency":
        clevercsv.Detector().detect(sample, method="consistency")
    elif ENTRY == "sniff":
        clevercsv.Detector().sniff(sample)
    elif ENTRY == "has_header":
        try:
            clevercsv.Detector().has_header(sample)
        except clevercsv.exceptions.NoDetectionResult:
            __vp_reach("no result")
    elif ENTRY == "function":
        from clevercsv.consistency import detect_dialect_consistency
        detect_dialect_consistency(sample)
    elif ENTRY == "scores":
        ConsistencyDetector().compute_consistency_scores(sample, [A, B])
    elif ENTRY == "twice":
        d = ConsistencyDetector()
        try:
            d.detect(sample)
        except Boom:
            pass
        d.detect(sample)
except (Boom, KeyboardInterrupt, clevercsv.Error):
    failed = True
    __vp_reach("failed " + ENTRY)
__vp_assert(__vp_same(clevercsv.field_size_limit(), LIMIT), "limit", "the field size limit is not what it was before the " + ("failed " if failed else "") + "call", clevercsv.field_size_limit())
if not failed:
    __vp_reach("done " + ENTRY)
