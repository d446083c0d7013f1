# P26: options of the detector classes reach the measures
# parameters: HOW
NORMAL = []
CONS = []
NEW = []
SPACE = []


def normal(data, delimiters=None, verbose=False):
    NORMAL.append((data, delimiters, verbose))
    return found_normal


def cons_init(self, skip=True, verbose=False, cache_capacity=100000):
    NEW.append((skip, verbose))


def cons_detect(self, data, delimiters=None):
    CONS.append((data, delimiters))
    return "consistent"


__vp_patch("clevercsv.normal_form:detect_dialect_normal", normal)
__vp_patch("clevercsv.consistency:ConsistencyDetector.__init__", cons_init)
__vp_patch("clevercsv.consistency:ConsistencyDetector.detect", cons_detect)
__vp_stub("print", lambda *args, **kw: None)
found_normal = __vp_pick("normal form", None, "found")
sample = __vp_sym("sample", "str")
delims = [",", ";"]
verbose = __vp_pick("verbose", False, True)
skip = __vp_pick("skip", True, False)
from clevercsv.consistency import detect_dialect_consistency


def same_delims(d):
    return d is not None and len(d) == 2 and "," in d and ";" in d


def check(n, c, v, s, limited):
    for x in NORMAL:
        __vp_assert(__vp_same(x[0], sample), "sample", "normal-form detection does not see the sample", x)
        __vp_assert(same_delims(x[1]) if limited else x[1] is None, "delimiters", "the delimiters do not reach normal-form detection", x[1])
        __vp_assert(bool(x[2]) == v, "verbose", "the verbosity does not reach normal-form detection", x[2])
    for x in CONS:
        __vp_assert(__vp_same(x[0], sample), "sample", "the consistency measure does not see the sample", x)
        __vp_assert(same_delims(x[1]) if limited else x[1] is None, "delimiters", "the delimiters do not reach the consistency measure", x[1])
    for x in NEW:
        __vp_assert(bool(x[0]) == s, "skip", "the skip option does not reach the consistency measure", x[0])
        __vp_assert(bool(x[1]) == v, "verbose", "the verbosity does not reach the consistency measure", x[1])
    __vp_assert((len(NORMAL) > 0) == n, "method", "normal-form detection is not used as requested")
    __vp_assert((len(CONS) > 0) == c and (len(NEW) > 0) == c, "method", "the consistency measure is not used as requested")


kind = __vp_pick("delimiters as", "list", "text", "iterator", "none")
D = {"list": [",", ";"], "text": ",;", "iterator": iter([",", ";"]), "none": None}[kind]
if HOW == "detect":
    method = __vp_pick("method", "auto", "normal", "consistency")
    clevercsv.Detector().detect(sample, delimiters=D, verbose=verbose, method=method, skip=skip)
    check(method != "consistency", method == "consistency" or (method == "auto" and found_normal is None), verbose, skip, kind != "none")
elif HOW == "positional":
    clevercsv.Detector().detect(sample, D, verbose, "consistency", skip)
    check(False, True, verbose, skip, kind != "none")
elif HOW == "sniff":
    clevercsv.Sniffer().sniff(sample, delimiters=D, verbose=verbose)
    check(True, found_normal is None, verbose, True, kind != "none")
elif HOW == "sniff positional":
    clevercsv.Detector().sniff(sample, D)
    check(True, found_normal is None, False, True, kind != "none")
else:
    detect_dialect_consistency(sample, delimiters=D, skip=skip, verbose=verbose)
    check(False, True, verbose, skip, kind != "none")
__vp_reach(HOW)
