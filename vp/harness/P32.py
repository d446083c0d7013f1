# use: files
# P32: the writing helpers validate before touching the file and write all rows
# parameters: SHAPE (cells per row), FORM
FAULTY = False
NLINES = 0
path = __vp_sym("filename", "str")
enc = __vp_sym("encoding", "str")
table = [[__vp_sym("cell %d.%d" % (i, j), None) for j in range(SHAPE[i])] for i in range(len(SHAPE))]
rows = [list(r) for r in table]
touched = []


def stream():
    for r in table:
        __vp_assert(len(FS.opened) == 0, "order", "the file is opened before all rows have been checked")
        yield r


def cells(r):
    for c in r:
        yield c


if FORM == "list":
    given = table
elif FORM == "tuples":
    given = tuple([tuple(r) for r in table])
elif FORM == "generator":
    given = stream()
elif FORM == "iterator":
    given = iter(table)
else:
    given = [cells(r) for r in table]
kw = {}
form = __vp_pick("dialect", "default", "excel-tab", "simple", "unix")
if form == "excel-tab" or form == "unix":
    kw["dialect"] = form
elif form == "simple":
    d = char("delimiter")
    kw["dialect"] = SimpleDialect(d, "'", "")
if __vp_pick("encoding", "given", "not given") == "given":
    kw["encoding"] = enc
t = __vp_pick("transpose", False, True)
if t:
    kw["transpose"] = True
refused = False
try:
    r = clevercsv.write_table(given, path, **kw)
    __vp_assert(r is None, "result", "something is returned", r)
except ValueError:
    refused = True
unequal = False
for w in SHAPE:
    if w != SHAPE[0]:
        unequal = True
if unequal:
    __vp_assert(refused, "unequal", "a table with rows of unequal length is not refused")
    __vp_assert(len(FS.opened) == 0, "touched", "the file is opened although the table is refused")
    __vp_reach("refused")
else:
    __vp_assert(not refused, "refused", "a table with rows of equal length is refused")
    want = rows
    if t:
        want = [[rows[i][j] for i in range(len(rows))] for j in range(SHAPE[0] if SHAPE else 0)]
    if len(rows) == 0:
        __vp_assert(len(FS.opened) == 0, "touched", "a file is created although there are no rows")
        __vp_reach("empty")
    elif len(want):
        __vp_assert(len(FS.opened) == 1, "opened", "the file is not opened exactly once", len(FS.opened))
        f = FS.opened[0]
        __vp_assert(__vp_same(f.path, path), "path", "another file is written than the one given", f.path)
        __vp_assert(f.mode in ("w", "wt"), "mode", "the file is not opened for writing text", f.mode)
        __vp_assert(f.newline == "", "newline", "the file is opened with newline translation", f.newline)
        __vp_assert(__vp_same(f.encoding, kw.get("encoding")), "encoding", "the file is opened with another encoding than the one given", f.encoding)
        __vp_assert(f.errors is None or f.errors == "strict", "errors", "characters that cannot be encoded are not reported", f.errors)
        got = [p.cells for p in f.written.parts]
        __vp_assert(same_rows(got, want), "rows", "the rows written are not those of the table", got)
        for p in f.written.parts:
            x = p.dialect
            if form == "default":
                __vp_assert(x == "excel" or x.delimiter == "," and x.quotechar == '"' and x.lineterminator == "\r\n", "dialect", "the default dialect is not excel", x)
            elif form == "excel-tab":
                __vp_assert(x == "excel-tab" or x.delimiter == "\t", "dialect", "the dialect given is not used", x)
            elif form == "unix":
                __vp_assert(x == "unix" or x.lineterminator == "\n" and x.quoting == csv.QUOTE_ALL, "dialect", "the dialect given is not used", x)
            else:
                __vp_assert(__vp_same(x.delimiter, d) and x.quotechar == "'" and x.escapechar is None, "dialect", "the dialect given is not used", x)
        all_closed("after writing")
        __vp_reach("written")
