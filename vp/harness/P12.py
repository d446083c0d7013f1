# P12: every documented way to give a dialect works and means the same
# parameters: USER (reader, writer, DictReader, DictWriter), FORM, KW (keyword overrides)
from clevercsv.dialect import SimpleDialect

SEEN = []


class Parser:
    def __init__(self, data, delimiter=None, quotechar=None, escapechar=None, field_limit=None, strict=None, return_quoted=False):
        SEEN.append((delimiter, quotechar, escapechar, strict))
        self.it = iter(data)
        self.left = 1

    def __iter__(self):
        return self

    def __next__(self):
        if self.left == 0:
            raise StopIteration
        self.left = self.left - 1
        return ["a", "b"]


class EngineWriter:
    def __init__(self, csvfile, dialect="excel", **kw):
        SEEN.append((dialect, kw))

    def writerow(self, row):
        return None

    def writerows(self, rows):
        return None


def engine_writer(csvfile, dialect="excel", **kw):
    return EngineWriter(csvfile, dialect, **kw)


__vp_stub("clevercsv.cparser.Parser", Parser)
__vp_stub("csv.writer", engine_writer)


def char(name):
    c = __vp_sym(name, "str")
    __vp_assume(len(c) == 1)
    return c


READS = USER in ("reader", "DictReader")
delim = char("delimiter")
qform = __vp_pick("quote character", "present", "absent")
eform = __vp_pick("escape character", "present", "absent")
quote = char("quotechar") if qform == "present" else ""
esc = char("escapechar") if eform == "present" else ""
strict = __vp_pick("strict", False, True)
QN = csv.QUOTE_MINIMAL if qform == "present" else csv.QUOTE_NONE
esc_csv = esc if eform == "present" else None
quote_csv = quote if qform == "present" else '"'
LT = __vp_sym("lineterminator", "str")
__vp_assume(LT != "")
SKIP = __vp_pick("skipinitialspace", False, True) if not READS else False
DBL = __vp_pick("doublequote", True, False) if not READS else True
has_lt = True
has_rest = True


class UserDialect(csv.Dialect):
    delimiter = delim
    quotechar = quote_csv
    escapechar = esc_csv
    quoting = QN
    doublequote = DBL
    skipinitialspace = SKIP
    lineterminator = LT
    strict = strict


class UserDialectNoStrict(csv.Dialect):
    delimiter = delim
    quotechar = quote_csv
    escapechar = esc_csv
    quoting = QN
    doublequote = DBL
    skipinitialspace = SKIP
    lineterminator = LT


want_strict = strict
if FORM == "class":
    d = UserDialect
elif FORM == "instance":
    d = UserDialect()
elif FORM == "class without strict":
    d = UserDialectNoStrict
    want_strict = False
elif FORM == "registry object":
    d = RegisteredDialect(delim, quote_csv, esc_csv, strict, QN, DBL, LT, SKIP)
elif FORM == "name":
    REGISTRY["mine"] = RegisteredDialect(delim, quote_csv, esc_csv, strict, QN, DBL, LT, SKIP)
    d = "mine"
elif FORM == "excel class":
    d = csv.excel
elif FORM == "default":
    d = None
else:
    d = SimpleDialect(delim, quote, esc, strict=strict)
    has_lt = False
    has_rest = False
if FORM in ("excel class", "default"):
    delim, quote, esc, want_strict, QN, quote_csv, esc_csv = ",", '"', "", False, csv.QUOTE_MINIMAL, '"', None
    LT, SKIP, DBL = "\r\n", False, True

kw = {}
if KW == "delimiter":
    delim = char("delimiter keyword")
    kw["delimiter"] = delim
elif KW == "quotechar":
    quote = char("quotechar keyword")
    quote_csv = quote
    kw["quotechar"] = quote
elif KW == "escapechar":
    esc = char("escapechar keyword")
    esc_csv = esc
    kw["escapechar"] = esc
elif KW == "strict":
    want_strict = not want_strict
    kw["strict"] = want_strict
elif KW == "all":
    delim = char("delimiter keyword")
    quote = char("quotechar keyword")
    quote_csv = quote
    esc = char("escapechar keyword")
    esc_csv = esc
    want_strict = not want_strict
    kw = dict(delimiter=delim, quotechar=quote, escapechar=esc, strict=want_strict)
elif KW == "others":
    LT = __vp_sym("lineterminator keyword", "str")
    SKIP = not SKIP
    DBL = not DBL
    QN = csv.QUOTE_ALL
    kw = dict(lineterminator=LT, skipinitialspace=SKIP, doublequote=DBL, quoting=QN)
    has_lt = True
    has_rest = True

f = ["x"]
if USER == "reader":
    r = clevercsv.reader(f, d, **kw) if FORM != "default" else clevercsv.reader(f, **kw)
    next(r)
elif USER == "DictReader":
    r = clevercsv.DictReader(f, fieldnames=["p"], dialect=d, **kw) if FORM != "default" else clevercsv.DictReader(f, fieldnames=["p"], **kw)
    next(r)
elif USER == "writer":
    w = clevercsv.writer(f, d, **kw) if FORM != "default" else clevercsv.writer(f, **kw)
else:
    w = clevercsv.DictWriter(f, ["p"], dialect=d, **kw) if FORM != "default" else clevercsv.DictWriter(f, ["p"], **kw)

__vp_assert(len(SEEN) == 1, "engine", "the engine is not set up exactly once")


def absent(x):
    return x is None or x == ""


if READS:
    pd, pq, pe, ps = SEEN[0]
    __vp_assert(__vp_same(pd, delim), "delimiter", "the parser is given another delimiter than the dialect describes", pd, delim)
    __vp_assert(__vp_same(pq, quote) or (absent(pq) and absent(quote)), "quotechar", "the parser is given another quote character than the dialect describes", pq, quote)
    __vp_assert(__vp_same(pe, esc) or (absent(pe) and absent(esc)), "escapechar", "the parser is given another escape character than the dialect describes", pe, esc)
    __vp_assert(__vp_same(bool(ps), want_strict), "strict", "the parser is given another strictness than the dialect describes", ps, want_strict)
    __vp_reach("reader " + FORM)
else:
    got, more = SEEN[0]

    def g(name, default):
        if name in more:
            return more[name]
        if hasattr(got, name):
            return getattr(got, name)
        return default

    __vp_assert(__vp_same(g("delimiter", ","), delim), "delimiter", "the csv writer is given another delimiter than the dialect describes", g("delimiter", ","), delim)
    gq = g("quotechar", '"')
    quoting = g("quoting", csv.QUOTE_MINIMAL)
    __vp_assert(__vp_same(quoting, QN), "quoting", "the csv writer is given another quoting mode than the dialect describes", quoting, QN)
    if QN != csv.QUOTE_NONE:
        __vp_assert(__vp_same(gq, quote_csv), "quotechar", "the csv writer is given another quote character than the dialect describes", gq, quote_csv)
    else:
        __vp_assert(gq is None or __vp_same(len(gq), 1), "quotechar", "the csv writer is given an unusable quote character", gq)
    __vp_assert(__vp_same(g("escapechar", None), esc_csv), "escapechar", "the csv writer is given another escape character than the dialect describes", g("escapechar", None), esc_csv)
    __vp_assert(__vp_same(bool(g("strict", False)), want_strict), "strict", "the csv writer is given another strictness than the dialect describes")
    lt = g("lineterminator", "\r\n")
    if has_lt:
        __vp_assert(__vp_same(lt, LT), "lineterminator", "the csv writer is given another line terminator than the dialect describes", lt, LT)
    else:
        __vp_assert(lt == "\n", "lineterminator", "a SimpleDialect is not written with newline line ends", lt)
    if has_rest:
        __vp_assert(__vp_same(g("doublequote", True), DBL), "doublequote", "the csv writer is given another doublequote setting than the dialect describes")
        __vp_assert(__vp_same(g("skipinitialspace", False), SKIP), "skipinitialspace", "the csv writer is given another skipinitialspace setting than the dialect describes")
    else:
        __vp_assert(g("doublequote", True) == True and g("skipinitialspace", False) == False, "doublequote", "a SimpleDialect is not written with doubled quotes")
    __vp_reach("writer " + FORM)
