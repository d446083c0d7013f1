# P34: the dictionary reader loses no cell and no row
# parameters: NF (number of field names), GIVEN
import warnings

DUP = __vp_pick("field names", "different", "two alike") if NF >= 2 else "different"
NAMES = [__vp_sym("name%d" % i, "str") for i in range(NF)]
for i in range(NF):
    for j in range(i):
        if DUP == "two alike" and i == 1 and j == 0:
            __vp_assume(NAMES[i] == NAMES[j])
        else:
            __vp_assume(NAMES[i] != NAMES[j])
RESTKEY = __vp_pick("restkey", None, "sym")
if RESTKEY == "sym":
    RESTKEY = __vp_sym("restkey", "str")
    for n in NAMES:
        __vp_assume(n != RESTKEY)
RESTVAL = __vp_pick("restval", None, "sym")
if RESTVAL == "sym":
    RESTVAL = __vp_sym("restval", "str")
WARNED = []


def warn(message, *args, **kw):
    WARNED.append(message)


__vp_stub("warnings.warn", warn)
NROWS = __vp_pick("rows", 0, 1, 2)
DATA = []
for i in range(NROWS):
    n = __vp_pick("cells of row %d" % i, 0, 1, 2, 3)
    DATA.append([__vp_sym("cell%d.%d" % (i, j), "str") for j in range(n)])
ALL = DATA if GIVEN else [NAMES] + DATA
TAKEN = []


class Parser:
    def __init__(self, data, delimiter=None, quotechar=None, escapechar=None, field_limit=None, strict=None, return_quoted=False):
        pass

    def __iter__(self):
        return self

    def __next__(self):
        if len(TAKEN) >= len(ALL):
            raise StopIteration
        TAKEN.append(None)
        return list(ALL[len(TAKEN) - 1])


__vp_stub("clevercsv.cparser.Parser", Parser)
kw = {}
if RESTKEY is not None:
    kw["restkey"] = RESTKEY
if RESTVAL is not None:
    kw["restval"] = RESTVAL
d = clevercsv.DictReader(["x"], fieldnames=NAMES, **kw) if GIVEN else clevercsv.DictReader(["x"], **kw)
ask = __vp_pick("field names asked for first", False, True)
if ask:
    fn = d.fieldnames
    __vp_assert(fn is not None and len(fn) == NF and all([__vp_same(fn[i], NAMES[i]) for i in range(NF)]), "fieldnames", "the field names are not those given or read", fn)
how = __vp_pick("use", "next", "for")
got = []
if how == "for":
    for m in d:
        got.append((m, d.line_num, len(TAKEN)))
else:
    for i in range(4):
        try:
            m = next(d)
        except StopIteration:
            break
        got.append((m, d.line_num, len(TAKEN)))
want = [r for r in DATA if len(r) > 0]
__vp_assert(len(got) == len(want), "rows", "a row is lost or an empty row is delivered", len(got), len(want))
fn = d.fieldnames
__vp_assert(fn is not None and len(fn) == NF and all([__vp_same(fn[i], NAMES[i]) for i in range(NF)]), "fieldnames", "the field names are not those given or read", fn)
if len(got):
    __vp_assert(bool(WARNED) == (DUP == "two alike"), "warning", "duplicate field names and the warning about them do not go together")
for i in range(len(got)):
    m, ln, taken = got[i]
    row = want[i]
    __vp_assert(ln == taken, "line_num", "line_num does not follow the underlying reader", ln, taken)
    if DUP == "different":
        keys = list(m.keys())
        extra = 1 if len(row) > NF else 0
        __vp_assert(len(keys) == NF + extra, "keys", "the mapping has other keys than the field names", keys)
        for j in range(NF):
            __vp_assert(__vp_same(keys[j], NAMES[j]), "order", "the keys are not the field names in order", keys)
            v = m[NAMES[j]]
            if j < len(row):
                __vp_assert(__vp_same(v, row[j]), "cell", "a cell is not under its field name", v, row[j])
                __vp_reach("cell")
            else:
                __vp_assert(__vp_same(v, RESTVAL), "restval", "a missing cell is not filled with the rest value", v)
                __vp_reach("missing")
        if extra:
            v = m[RESTKEY]
            __vp_assert(isinstance(v, list) and len(v) == len(row) - NF, "restkey", "surplus cells are lost", v)
            for j in range(NF, len(row)):
                __vp_assert(__vp_same(v[j - NF], row[j]), "restkey", "surplus cells are changed", v)
            __vp_reach("surplus")
__vp_reach("given" if GIVEN else "header")
