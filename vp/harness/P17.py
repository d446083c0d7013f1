# P17: detection is a function of the sample and the options
# parameters: DATA, GIVEN (delimiters or None), METHOD, BEFORE (what the detector, or another one, was used for before), ENTRY, TIED (which dialects get equal scores)
from clevercsv.break_ties import tie_breaker
from clevercsv.consistency import ConsistencyDetector, detect_dialect_consistency
from clevercsv.detect import Detector
from clevercsv.dialect import SimpleDialect
from clevercsv.potential_dialects import get_dialects

LIKE = __vp_pick("dialects parse alike", "all", "by delimiter", "by delimiter and quote", "none")
if ENTRY == "ties" and LIKE == "none":
    LIKE = __vp_pick("which dialects", "none", "the first two", "the last two")


def key(delimiter, quotechar, escapechar):
    d, q, e = delimiter or "", quotechar or "", escapechar or ""
    if LIKE == "all":
        return ""
    if LIKE == "by delimiter":
        return d
    if LIKE == "by delimiter and quote":
        return d + "/" + q
    if LIKE == "the first two" and (d, q, e) in TIED[:2] or LIKE == "the last two" and (d, q, e) in TIED[-2:]:
        return d
    return d + "/" + q + "/" + e


class Parser:
    def __init__(self, data, delimiter=None, quotechar=None, escapechar=None, field_limit=None, strict=None, return_quoted=False):
        k = key(delimiter, quotechar, escapechar)
        self.rows = [[(k, False), ("1", quotechar == '"')], [("1", False)]]
        self.flag = return_quoted

    def __iter__(self):
        return self

    def __next__(self):
        if not self.rows:
            raise StopIteration
        r = self.rows.pop(0)
        return r if self.flag else [c for c, q in r]


def base_abstraction(data, delimiter, quotechar, escapechar):
    d, q, e = delimiter or "", quotechar or "", escapechar or ""
    if data == OTHER:
        # every score of the other sample exceeds those of the sample
        return "CDCDCDCDCRCDCDCDCDC"
    if TIED == "all" or TIED == "delimiter" and d == "," or TIED == "quotes" and d == "," and e == "" or TIED == "escapes" and d == "," and q == "":
        return "CDCRCDC"
    if TIED == "types":
        return "CDCRCDC" if d != "" else "CRC"
    return "CDCRC"


def known(self, cell, is_quoted=False):
    return is_quoted if TIED == "types" and cell == "1" else cell == "1"


def unused(*args, **kw):
    return None


def sub(repl, where, *args, **kw):
    return where


SCORES = []


__vp_stub("clevercsv.cparser.Parser", Parser)
__vp_stub("clevercsv.cabstraction.base_abstraction", base_abstraction)
__vp_stub("clevercsv.cabstraction.c_merge_with_quotechar", lambda text: text)
__vp_patch("clevercsv.detect_type:TypeDetector.is_known_type", known)
__vp_stub("regex sub", sub)
__vp_stub("print", unused)
OTHER = "u|v\nw|x" if DATA != "u|v\nw|x" else "u;v\nw;x"


def given():
    return None if GIVEN is None else list(GIVEN)


def use(d, sample, delims, verbose):
    if ENTRY == "detector":
        return d.detect(sample, delimiters=delims, method=METHOD, verbose=verbose)
    if ENTRY == "unskipped":
        return d.detect(sample, delimiters=delims, method=METHOD, verbose=verbose, skip=False)
    if ENTRY == "sniff":
        return d.sniff(sample, delimiters=delims, verbose=verbose)
    if ENTRY == "class":
        return d.detect(sample, delimiters=delims)
    if ENTRY == "scores":
        found = d.compute_consistency_scores(sample, get_dialects(sample, delimiters=delims))
        SCORES.append([(plain(x), found[x].P, found[x].T, found[x].Q) for x in found])
        return None
    if ENTRY == "ties":
        return tie_breaker(sample, [SimpleDialect(*x) for x in TIED])
    return detect_dialect_consistency(sample, delimiters=delims, verbose=verbose)


def new(verbose):
    if ENTRY == "class" or ENTRY == "scores":
        return ConsistencyDetector(verbose=verbose)
    return Detector()


def plain(d):
    return None if d is None else (d.delimiter, d.quotechar, d.escapechar, d.strict)


verbose = __vp_pick("verbose", False, True) if BEFORE != "" else True
one = new(verbose)
first = plain(use(one, DATA, given(), verbose))
m1 = getattr(one, "method_", None)
__vp_reach("nothing detected" if first is None else "detected")
two = new(verbose)
if BEFORE == "":
    __vp_orders(True)
else:
    two = new(verbose)
    d = two if __vp_pick("earlier with", "the same object", "another object") == "the same object" else new(verbose)
    if BEFORE == "other delimiters":
        use(d, DATA, ["|", " "], verbose)
    elif BEFORE == "no delimiters":
        use(d, DATA, [], verbose)
    elif BEFORE == "same":
        use(d, DATA, given(), verbose)
    elif BEFORE == "other method":
        d.detect(DATA, delimiters=given(), method=__vp_pick("the other method", "normal", "consistency", "auto"), verbose=verbose)
    elif BEFORE == "failure":
        BAD = []

        def bad(data, delimiter, quotechar, escapechar):
            if BAD:
                raise MemoryError("no memory")
            BAD.append(1)
            return base_abstraction(data, delimiter, quotechar, escapechar)
        __vp_stub("clevercsv.cabstraction.base_abstraction", bad)
        try:
            use(d, OTHER, None, verbose)
        except MemoryError:
            pass
        __vp_stub("clevercsv.cabstraction.base_abstraction", base_abstraction)
    else:
        use(d, OTHER, None, verbose)
        use(d, "", None, verbose)
second = plain(use(two, DATA, given(), verbose))
__vp_orders(False)
if BEFORE == "":
    __vp_assert(first == second, "order", "the detected dialect depends on the order in which a set is iterated", first, second, DATA)
    if ENTRY == "scores":
        __vp_assert(len(SCORES[0]) == len(SCORES[-1]) and all(any(x == y for y in SCORES[-1]) for x in SCORES[0]), "scores by order", "the scores depend on the order in which a set is iterated", SCORES[0], SCORES[-1])
    __vp_reach("orders")
else:
    __vp_assert(first == second, "history", "the detected dialect depends on what was detected before", first, second, DATA, BEFORE)
    if ENTRY == "scores":
        __vp_assert(SCORES[0] == SCORES[-1], "scores by history", "the scores depend on what was computed before", SCORES[0], SCORES[-1], BEFORE)
    __vp_assert(m1 == getattr(two, "method_", None), "method", "the recorded method depends on what was detected before")
    __vp_reach("history " + BEFORE)
