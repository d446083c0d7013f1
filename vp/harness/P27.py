# use: files cli
# P27: every file the package opens is closed on every way out
# parameters: ENTRY, NLINES
FAULTY = True
path = __vp_sym("filename", "str")
__vp_assume(path != "")
other = __vp_sym("output", "str")
__vp_assume(other != path and other != "")
FAST = __vp_pick("fast detector", True, False) if ENTRY == "get_encoding" else True
FOUND = SimpleDialect(char("delimiter"), "", "", strict=False) if ENTRY != "no dialect" else None
if NLINES and "dicts" in ENTRY:
    h = lines_of(path)[0].row
    __vp_assume(h[0] != h[1])


class Detector_:
    """the byte-wise encoding detector"""

    def __init__(self):
        self.done = False
        self.result = {"encoding": None}

    def feed(self, chunk):
        step("feed")
        if __vp_pick("the detector is done", False, True):
            self.done = True

    def close(self):
        step("finish")
        self.result = {"encoding": "utf-8"}


__vp_stub("chardet.UniversalDetector", Detector_)


class Fast:
    UniversalDetector = Detector_


def fast_detector(name, raise_on_missing=True):
    if name == "cchardet":
        return Fast if FAST else None
    return optional(name)


__vp_patch("clevercsv._optional:import_optional_dependency", fast_detector)


def consume(g):
    """reads some rows and gives up"""
    n = 0
    for row in g:
        n = n + 1
        if n == 2 or __vp_pick("give up", False, True):
            break
    g.close()


def rows_that_fail():
    yield ["a", "b"]
    step("the caller's rows")
    yield ["c", "d"]


def items_that_fail():
    yield {"a": 1, "b": 2}
    step("the caller's items")
    yield {"a": 3, "b": 4}


def cli(command, *flags):
    given = {}
    for f in flags:
        given[f] = True
    if "--output" in given:
        given["--output"] = [other]
    run_command(command, [path], given)


from clevercsv.utils import sha1sum
try:
    if ENTRY == "stream_table":
        consume(clevercsv.stream_table(path))
    elif ENTRY == "stream_dicts":
        consume(clevercsv.stream_dicts(path))
    elif ENTRY == "stream_table given":
        consume(clevercsv.stream_table(path, dialect="excel", encoding="utf-8"))
    elif ENTRY == "stream_dicts given":
        consume(clevercsv.stream_dicts(path, dialect="excel", encoding="utf-8"))
    elif ENTRY == "read_table":
        clevercsv.read_table(path)
    elif ENTRY == "read_dicts":
        clevercsv.read_dicts(path)
    elif ENTRY == "detect_dialect":
        clevercsv.detect_dialect(path)
    elif ENTRY == "read_dataframe":
        clevercsv.read_dataframe(path)
    elif ENTRY == "no dialect":
        for f in (clevercsv.detect_dialect, clevercsv.read_table, clevercsv.read_dicts, clevercsv.read_dataframe):
            try:
                f(path)
            except clevercsv.exceptions.NoDetectionResult:
                pass
    elif ENTRY == "write_table":
        clevercsv.write_table([["a", "b"], ["c", "d"]], path)
    elif ENTRY == "write_table rows":
        clevercsv.write_table(rows_that_fail(), path, transpose=True)
    elif ENTRY == "write_dicts":
        clevercsv.write_dicts(items_that_fail(), path)
    elif ENTRY == "write_dicts extra":
        try:
            clevercsv.write_dicts([{"a": 1}, {"b": 2}], path)
        except ValueError:
            pass
    elif ENTRY == "unknown dialect":
        for f in (lambda: clevercsv.write_table([["a"]], path, dialect="nonsense"), lambda: clevercsv.write_dicts([{"a": 1}], path, dialect="nonsense"),
                  lambda: clevercsv.read_table(path, dialect="nonsense"), lambda: clevercsv.read_dicts(path, dialect="nonsense")):
            try:
                f()
            except clevercsv.Error:
                pass
    elif ENTRY == "get_encoding":
        clevercsv.encoding.get_encoding(path)
        clevercsv.encoding.get_encoding(path, try_cchardet=False)
    elif ENTRY == "sha1sum":
        sha1sum(path)
    elif ENTRY == "detect":
        cli("detect")
    elif ENTRY == "code":
        cli("code")
    elif ENTRY == "explore":
        cli("explore")
    elif ENTRY == "view":
        cli("view", "--transpose")
    elif ENTRY == "standardize":
        cli("standardize")
    elif ENTRY == "standardize file":
        cli("standardize", "--output")
    elif ENTRY == "standardize in place":
        cli("standardize", "--in-place")
    elif ENTRY == "standardize transposed":
        cli("standardize", "--output", "--transpose")
    elif ENTRY == "standardize in place transposed":
        cli("standardize", "--in-place", "--transpose")
    else:
        __vp_fail("scenario", "unknown entry")
except Boom:
    pass
if len(FS.opened):
    __vp_reach("opened " + ENTRY)
if FS.failed and len(FS.opened):
    __vp_reach("failed " + ENTRY)
all_closed("when %s ends" % ENTRY)
