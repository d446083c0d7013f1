# P35: the dictionary writer never drops a value silently
# parameters: NF, EXTRAS
class WriteError(Exception):
    pass


NAMES = [__vp_sym("name%d" % i, "str") for i in range(NF)]
for i in range(NF):
    for j in range(i):
        __vp_assume(NAMES[i] != NAMES[j])
RESTVAL = __vp_pick("restval", None, "sym")
if RESTVAL == "sym":
    RESTVAL = __vp_sym("restval", "str")
OUT = []


class EngineWriter:
    def __init__(self):
        self.n = 0

    def writerow(self, row):
        r = [c for c in row]
        OUT.append(r)
        self.n = self.n + 1
        return __vp_sym("written", "int")

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)


def engine_writer(csvfile, dialect="excel", **kw):
    return EngineWriter()


__vp_stub("csv.writer", engine_writer)
kw = {}
if RESTVAL is not None:
    kw["restval"] = RESTVAL
if EXTRAS is not None:
    kw["extrasaction"] = EXTRAS
names_form = __vp_pick("field names as", "list", "tuple", "keys")
names_arg = NAMES if names_form == "list" else tuple(NAMES) if names_form == "tuple" else {n: 1 for n in NAMES}.keys()
w = clevercsv.DictWriter(["x"], names_arg, **kw)
filler = "" if RESTVAL is None else RESTVAL
ITEMS = []


def item(i):
    """a mapping with some of the names in any order, and perhaps a key that is none"""
    d = {}
    rev = __vp_pick("order of keys %d" % i, "same", "reversed") if NF > 1 else "same"
    for k in (range(NF) if rev == "same" else range(NF - 1, -1, -1)):
        if __vp_pick("item %d has name %d" % (i, k), True, False):
            d[NAMES[k]] = __vp_sym("value%d.%d" % (i, k))
    extra = __vp_pick("item %d has a foreign key" % i, False, True)
    if extra:
        x = __vp_sym("foreign", "str")
        for n in NAMES:
            __vp_assume(n != x)
        d[x] = __vp_sym("foreign value")
    return d, extra


how = __vp_pick("use", "writerow", "writerows", "writerows generator", "header")
if how == "header":
    w.writeheader()
    __vp_assert(len(OUT) == 1 and len(OUT[0]) == NF and all([__vp_same(OUT[0][i], NAMES[i]) for i in range(NF)]), "header", "the header is not the field names in order", OUT)
    __vp_reach("header")
else:
    items = [item(0)] if how == "writerow" else [item(0), item(1)]
    ignore = EXTRAS is not None and EXTRAS.lower() == "ignore"
    bad = -1
    for i in range(len(items)):
        if items[i][1] and not ignore and bad < 0:
            bad = i
    refused = False
    try:
        if how == "writerow":
            w.writerow(items[0][0])
        elif how == "writerows":
            w.writerows([x[0] for x in items])
        else:
            w.writerows(x[0] for x in items)
    except ValueError:
        refused = True
    __vp_assert(refused == (bad >= 0), "extras", "a mapping with a key that is no field name is " + ("refused although extras are ignored or there are none" if refused else "written silently"))
    n = bad if bad >= 0 else len(items)
    __vp_assert(len(OUT) <= n, "refused row", "something of a refused row is written")
    __vp_assert(len(OUT) == n or bad >= 0, "rows", "a row is not written", len(OUT), n)
    for i in range(len(OUT)):
        d = items[i][0]
        __vp_assert(len(OUT[i]) == NF, "width", "a row is written with another number of values than there are field names", OUT[i])
        for k in range(NF):
            v = d[NAMES[k]] if NAMES[k] in d else filler
            __vp_assert(__vp_same(OUT[i][k], v), "value", "a value is not written under its field name", OUT[i][k], v)
    __vp_reach("refused" if refused else "written")
