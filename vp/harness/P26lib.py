# use: files
# P26: options given to the library helpers reach the code that implements them
# parameters: HELPER
FAULTY = False
NLINES = 2
path = __vp_sym("filename", "str")
__vp_assume(path != "")
FOUND = SimpleDialect(char("delimiter"), "", "", strict=False)
mine = SimpleDialect(char("my delimiter"), "'", "", strict=True)
verbose = __vp_pick("verbose", False, True)
method = __vp_pick("method", "auto", "normal", "consistency")
skip = __vp_pick("skip", True, False)
n = __vp_sym("num_chars", "int")
__vp_assume(n > 0)
enc = __vp_sym("encoding", "str")
__vp_assume(enc != "")
h = lines_of(path)[0].row
__vp_assume(h[0] != h[1])


class FakePandasErrors:
    class ParserWarning(Warning):
        pass


PANDAS = []


class FakePandas:
    errors = FakePandasErrors

    @staticmethod
    def read_csv(*args, **kw):
        PANDAS.append((args, kw))
        return "frame"


def optional(name, raise_on_missing=True):
    return FakePandas


__vp_patch("clevercsv._optional:import_optional_dependency", optional)


def reading(f):
    r = f(path, encoding=enc, num_chars=n, verbose=verbose)
    if HELPER.startswith("stream"):
        r = [x for x in r]
    check(verbose, "auto", True)
    return r


def check(v, m, s):
    __vp_assert(len(FS.detections) == 1, "detection", "the dialect is not detected exactly once")
    d = FS.detections[0]
    __vp_assert(__vp_same(d[0], full_text(path)[:n]), "num_chars", "detection does not see the requested number of characters", d[0])
    __vp_assert(d[1] is None, "delimiters", "the delimiters are restricted", d[1])
    __vp_assert(bool(d[2]) == v, "verbose", "the verbosity does not reach the detection", d[2])
    __vp_assert(d[3] == m, "method", "the method does not reach the detection", d[3])
    __vp_assert(bool(d[4]) == s, "skip", "the skip option does not reach the detection", d[4])
    for fp in FS.opened:
        __vp_assert(__vp_same(fp.encoding, enc), "encoding", "the encoding does not reach the file", fp.encoding)
    __vp_assert(len(FS.encodings) == 0, "encoding", "the encoding is detected although it is given")


if HELPER == "stream_table":
    reading(clevercsv.stream_table)
elif HELPER == "read_table":
    reading(clevercsv.read_table)
elif HELPER == "stream_dicts":
    reading(clevercsv.stream_dicts)
elif HELPER == "read_dicts":
    reading(clevercsv.read_dicts)
elif HELPER == "detect_dialect":
    clevercsv.detect_dialect(path, num_chars=n, encoding=enc, verbose=verbose, method=method, skip=skip)
    check(verbose, method, skip)
elif HELPER == "positional":
    clevercsv.detect_dialect(path, n, enc, verbose, method, skip)
    check(verbose, method, skip)
elif HELPER == "positional read":
    clevercsv.read_table(path, None, enc, n, verbose)
    check(verbose, "auto", True)
elif HELPER == "positional dicts":
    clevercsv.read_dicts(path, None, enc, n, verbose)
    check(verbose, "auto", True)
elif HELPER == "read_dataframe":
    a = __vp_new("extra", None)
    b = __vp_new("option", None)
    given = {"skiprows": b, "encoding": enc, "num_chars": n}
    r = clevercsv.read_dataframe(path, a, **given)
    check(False, "auto", True)
    __vp_assert(len(PANDAS) == 1, "pandas", "pandas does not read the file exactly once")
    args, kw = PANDAS[0]
    __vp_assert(len(args) == 2 and __vp_same(args[0], path) and __vp_same(args[1], a), "pandas", "the positional arguments do not reach pandas", args)
    __vp_assert(len(kw) == 3 and __vp_same(kw["skiprows"], b) and __vp_same(kw["encoding"], enc) and "dialect" in kw, "pandas", "the keyword arguments do not reach pandas", kw)
    __vp_assert(len(given) == 3, "pandas", "the arguments of the caller are changed")
elif HELPER == "given dialect":
    for f in (clevercsv.read_table, clevercsv.read_dicts):
        f(path, dialect=mine, encoding=enc)
    __vp_assert(len(FS.detections) == 0, "detection", "a detection runs although a dialect is given")
    __vp_assert(len(FS.engines) == 2, "dialect", "the file is not parsed")
    for g in FS.engines:
        __vp_assert(__vp_same(g[1], mine.delimiter) and g[2] == "'" and g[4] == True, "dialect", "the dialect does not reach the parser", g)
__vp_reach(HELPER)
