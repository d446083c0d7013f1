# P18: the requested detection method is the one that is used
from clevercsv.dialect import SimpleDialect
from clevercsv.detect import DetectionMethod

CALLS = []
D1 = SimpleDialect(",", "", "")
D2 = SimpleDialect(";", "", "")
sample = __vp_sym("sample", "str")
found_n = __vp_pick("normal form", "found", "none")
found_c = __vp_pick("consistency", "found", "none")


def normal(data, encoding="UTF-8", delimiters=None, verbose=False):
    __vp_assert(__vp_same(data, sample), "sample", "normal-form detection sees something else than the sample")
    CALLS.append("normal")
    return D1 if found_n == "found" else None


def consistency(self, data, delimiters=None):
    __vp_assert(__vp_same(data, sample), "sample", "the consistency measure sees something else than the sample")
    CALLS.append("consistency")
    return D2 if found_c == "found" else None


__vp_patch("clevercsv.normal_form:detect_dialect_normal", normal)
__vp_patch("clevercsv.consistency:ConsistencyDetector.detect", consistency)
how = __vp_pick("method", "default", "sniff", "auto", "AUTO", "normal", "NORMAL", "consistency", "CONSISTENCY", "unknown")
verbose = __vp_pick("verbose", False, True)
det = clevercsv.Detector()
want = "auto" if how in ("default", "sniff") else how.lower()
if how == "unknown":
    name = __vp_sym("method", "str")
    __vp_assume(name != "auto" and name != "normal" and name != "consistency")
    refused = False
    try:
        det.detect(sample, method=name)
    except ValueError:
        refused = True
    __vp_assert(refused, "unknown", "an unknown detection method is not refused with ValueError")
    __vp_assert(CALLS == [], "unknown", "an unknown detection method starts a detection")
else:
    before = __vp_pick("the same detector before", "nothing", "auto", "normal", "consistency")
    if before != "nothing":
        now = found_n, found_c
        found_n = __vp_pick("normal form before", "found", "none")
        found_c = __vp_pick("consistency before", "found", "none")
        det.detect(sample, method=before)
        found_n, found_c = now
        CALLS.clear()
        __vp_reach("used before")
    if how == "default":
        r = det.detect(sample, verbose=verbose)
    elif how == "sniff":
        r = det.sniff(sample, verbose=verbose)
    elif how in ("AUTO", "NORMAL", "CONSISTENCY"):
        r = det.detect(sample, verbose=verbose, method=DetectionMethod.AUTO if how == "AUTO" else DetectionMethod.NORMAL if how == "NORMAL" else DetectionMethod.CONSISTENCY)
    else:
        r = det.detect(sample, verbose=verbose, method=how)
    dn = D1 if found_n == "found" else None
    dc = D2 if found_c == "found" else None
    if want == "normal":
        __vp_assert(CALLS == ["normal"], "calls", "method 'normal' does not use normal forms alone", CALLS)
        __vp_assert(r is dn, "result", "method 'normal' returns something else than normal-form detection")
        __vp_assert(det.method_ == DetectionMethod.NORMAL, "recorded", "another method is recorded than the one used")
    elif want == "consistency":
        __vp_assert(CALLS == ["consistency"], "calls", "method 'consistency' does not use the consistency measure alone", CALLS)
        __vp_assert(r is dc, "result", "method 'consistency' returns something else than the consistency measure")
        __vp_assert(det.method_ == DetectionMethod.CONSISTENCY, "recorded", "another method is recorded than the one used")
    elif dn is not None:
        __vp_assert(CALLS == ["normal"], "calls", "method 'auto' does not stop at a normal form", CALLS)
        __vp_assert(r is dn, "result", "method 'auto' does not return the normal form that was found")
        __vp_assert(det.method_ == DetectionMethod.NORMAL, "recorded", "another method is recorded than the one used")
    else:
        __vp_assert(CALLS == ["normal", "consistency"], "calls", "method 'auto' does not try normal forms first and then the consistency measure", CALLS)
        __vp_assert(r is dc, "result", "method 'auto' does not return the result of the consistency measure")
        __vp_assert(det.method_ == DetectionMethod.CONSISTENCY, "recorded", "another method is recorded than the one used")
__vp_reach(how)
