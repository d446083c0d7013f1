# use: files
# P32: writing dictionaries
# parameters: N, FORM
FAULTY = False
NLINES = 0
path = __vp_sym("filename", "str")
enc = __vp_sym("encoding", "str")
keys = ["second", "first"]
items = [{"second": __vp_sym("value %d.0" % i, None), "first": __vp_sym("value %d.1" % i, None)} for i in range(N)]
if N > 1 and __vp_pick("order", "same", "other"):
    items[1] = {"first": items[1]["first"], "second": items[1]["second"]}
kept = [[it["second"], it["first"]] for it in items]


def stream():
    for it in items:
        yield it


given = items
if FORM == "generator":
    given = stream()
elif FORM == "tuple":
    given = tuple(items)
elif FORM == "iterator":
    given = iter(items)
kw = {}
form = __vp_pick("dialect", "default", "excel-tab", "simple")
if form == "excel-tab":
    kw["dialect"] = form
elif form == "simple":
    d = char("delimiter")
    kw["dialect"] = SimpleDialect(d, "'", "")
if __vp_pick("encoding", "given", "not given") == "given":
    kw["encoding"] = enc
r = clevercsv.write_dicts(given, path, **kw)
__vp_assert(r is None, "result", "something is returned", r)
if N == 0:
    __vp_assert(len(FS.opened) == 0, "touched", "a file is created although there are no items")
    __vp_reach("no items")
else:
    __vp_assert(len(FS.opened) == 1, "opened", "the file is not opened exactly once", len(FS.opened))
    f = FS.opened[0]
    __vp_assert(__vp_same(f.path, path), "path", "another file is written than the one given", f.path)
    __vp_assert(f.mode in ("w", "wt"), "mode", "the file is not opened for writing text", f.mode)
    __vp_assert(f.newline == "", "newline", "the file is opened with newline translation", f.newline)
    __vp_assert(__vp_same(f.encoding, kw.get("encoding")), "encoding", "the file is opened with another encoding than the one given", f.encoding)
    got = [p.cells for p in f.written.parts]
    __vp_assert(same_rows(got, [keys] + kept), "rows", "header and items are not written in order", got)
    for p in f.written.parts:
        x = p.dialect
        if form == "default":
            __vp_assert(x == "excel" or x.delimiter == "," and x.quotechar == '"' and x.lineterminator == "\r\n", "dialect", "the default dialect is not excel", x)
        elif form == "excel-tab":
            __vp_assert(x == "excel-tab" or x.delimiter == "\t", "dialect", "the dialect given is not used", x)
        else:
            __vp_assert(__vp_same(x.delimiter, d) and x.quotechar == "'" and x.escapechar is None, "dialect", "the dialect given is not used", x)
    all_closed("after writing")
    __vp_reach("items")
