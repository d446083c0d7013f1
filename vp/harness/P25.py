# use: files
# P25: the reading helpers read the whole file with the right dialect
# parameters: ENTRY, GIVEN (dialect given), NLINES
FAULTY = False
path = __vp_sym("filename", "str")
FOUND = SimpleDialect(char("delimiter"), __vp_pick("quote", "", "'"), "", strict=False)
if not GIVEN and __vp_pick("detection", "succeeds", "fails") == "fails":
    FOUND = None
enc_form = __vp_pick("encoding", "given", "not given")
enc = __vp_sym("encoding", "str")
__vp_assume(enc != "")
n_form = __vp_pick("num_chars", "given", "not given")
n = __vp_sym("num_chars", "int")
__vp_assume(n > 0)
mine = SimpleDialect(char("my delimiter"), "", "", strict=True)
kw = {}
if GIVEN:
    kw["dialect"] = mine
if enc_form == "given":
    kw["encoding"] = enc
if n_form == "given":
    kw["num_chars"] = n


class Frame:
    pass


class FakePandasErrors:
    class ParserWarning(Warning):
        pass


PANDAS = []


class FakePandas:
    errors = FakePandasErrors

    @staticmethod
    def read_csv(*args, **kw):
        PANDAS.append((args, kw))
        return "frame"


def optional(name, raise_on_missing=True):
    return FakePandas


__vp_patch("clevercsv._optional:import_optional_dependency", optional)
FUNCS = {
    "stream_table": clevercsv.stream_table,
    "read_table": clevercsv.read_table,
    "stream_dicts": clevercsv.stream_dicts,
    "read_dicts": clevercsv.read_dicts,
    "detect_dialect": clevercsv.detect_dialect,
    "read_dataframe": clevercsv.read_dataframe,
}
f = FUNCS[ENTRY]
if NLINES and ENTRY.endswith("dicts"):
    h = lines_of(path)[0].row
    __vp_assume(h[0] != h[1])
got = []
none = False
result = None
try:
    if ENTRY.startswith("stream"):
        for row in f(path, **kw):
            got.append(row)
    elif ENTRY.startswith("read_d") and ENTRY == "read_dataframe":
        result = f(path, **kw)
    elif ENTRY == "detect_dialect":
        result = f(path, **kw)
    else:
        got = f(path, **kw)
        __vp_assert(isinstance(got, list), "list", "no list is returned", got)
except clevercsv.exceptions.NoDetectionResult:
    none = True

want_enc = enc if enc_form == "given" else encoding_of(path)
__vp_assert(len(FS.opened) > 0, "opened", "the file is not opened")
for fp in FS.opened:
    __vp_assert(__vp_same(fp.path, path), "path", "another file is opened than the one given", fp.path)
    __vp_assert(fp.mode == "r" or fp.mode == "rt", "mode", "the file is not opened for reading text", fp.mode)
    __vp_assert(fp.newline == "", "newline", "the file is opened with newline translation", fp.newline)
    __vp_assert(__vp_same(fp.encoding, want_enc), "encoding", "the file is opened with another encoding than the one given or detected", fp.encoding)
    __vp_assert(fp.errors is None or fp.errors == "strict", "errors", "characters that cannot be decoded are not reported", fp.errors)
for p in FS.encodings:
    __vp_assert(__vp_same(p, path), "encoding", "the encoding of another file is detected", p)
if GIVEN:
    __vp_assert(len(FS.detections) == 0, "detection", "a detection runs although the dialect is given")
else:
    __vp_assert(len(FS.detections) == 1, "detection", "the dialect is not detected exactly once", len(FS.detections))
    want = full_text(path)[:n] if n_form == "given" else full_text(path)
    __vp_assert(__vp_same(FS.detections[0][0], want), "sample", "detection does not see the first num_chars characters (all if not given)", FS.detections[0][0], want)
used = mine if GIVEN else FOUND
if ENTRY == "detect_dialect":
    __vp_assert(not none and result is FOUND, "result", "the detected dialect is not returned")
    __vp_reach(ENTRY)
elif used is None:
    __vp_assert(none, "no result", "a failed detection does not raise NoDetectionResult")
    __vp_assert(len(got) == 0 and len(PANDAS) == 0, "no result", "rows are delivered although detection failed")
    __vp_reach(ENTRY + " fails")
elif ENTRY == "read_dataframe":
    __vp_assert(not none and result == "frame", "result", "the data frame is not returned")
    __vp_assert(len(PANDAS) == 1, "pandas", "pandas does not read the file exactly once")
    args, more = PANDAS[0]
    __vp_assert(len(args) == 1 and __vp_same(args[0], path), "pandas", "pandas reads another file than the one given", args)
    __vp_assert(__vp_same(more["encoding"], want_enc), "pandas encoding", "pandas reads with another encoding", more["encoding"])
    d = more["dialect"]
    __vp_assert(__vp_same(d.delimiter, FOUND.delimiter) and (d.quoting == csv.QUOTE_NONE) == (FOUND.quotechar == "") and (FOUND.quotechar == "" or d.quotechar == FOUND.quotechar) and d.escapechar is None,
                "pandas dialect", "pandas is given another dialect than the one detected")
    __vp_reach(ENTRY)
else:
    __vp_assert(not none, "no result", "NoDetectionResult is raised although there is a dialect")
    for e in FS.engines:
        __vp_assert(__vp_same(e[1], used.delimiter) and __vp_same(e[2], used.quotechar) and __vp_same(e[3], used.escapechar) and __vp_same(e[4], used.strict),
                    "dialect", "the file is read with another dialect than the one given or detected", e[1:])
    __vp_assert(len(FS.engines) == 1, "engine", "the file is not parsed exactly once")
    rows = [x.row for x in lines_of(path)]
    if ENTRY.endswith("table"):
        __vp_assert(same_rows(got, rows), "rows", "the rows delivered are not those of the file", got)
    else:
        __vp_assert(len(got) == (len(rows) - 1 if len(rows) else 0), "rows", "the rows delivered are not those of the file", got)
        for i in range(len(got)):
            for j in range(2):
                __vp_assert(__vp_same(got[i][rows[0][j]], rows[i + 1][j]), "rows", "the dictionaries delivered are not those of the file", got[i])
    __vp_reach(ENTRY)
