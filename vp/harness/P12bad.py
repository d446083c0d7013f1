# P12: an unknown dialect is refused at construction
from clevercsv.dialect import SimpleDialect


class NotADialect:
    delimiter = ","


f = ["x"]
what = __vp_pick("dialect", "unknown name", "number", "none", "list", "other class", "other instance", "two characters", "undefined component")
USER = __vp_pick("user", "reader", "writer", "DictReader", "DictWriter")
if what == "unknown name":
    d = __vp_sym("name", "str")
    __vp_assume(d != "excel" and d != "excel-tab" and d != "unix")
elif what == "number":
    d = 42
elif what == "none":
    d = None
elif what == "list":
    d = [","]
elif what == "other class":
    d = NotADialect
elif what == "other instance":
    d = NotADialect()
elif what == "two characters":
    __vp_assume(USER in ("reader", "DictReader"))
    d = SimpleDialect("ab", "", "")
else:
    __vp_assume(USER in ("reader", "DictReader"))
    d = SimpleDialect(",", None, "")


def engine_writer(csvfile, dialect="excel", **kw):
    __vp_fail("accepted", "the csv writer is set up with an unknown dialect")


__vp_stub("csv.writer", engine_writer)
refused = False
try:
    if USER == "reader":
        clevercsv.reader(f, d)
    elif USER == "writer":
        clevercsv.writer(f, d)
    elif USER == "DictReader":
        clevercsv.DictReader(f, fieldnames=["a"], dialect=d)
    else:
        clevercsv.DictWriter(f, ["a"], dialect=d)
except clevercsv.Error:
    refused = True
    __vp_assert(what == "unknown name", "class", "a dialect that is not a name is refused with the parsing error")
except (ValueError, TypeError):
    refused = True
    __vp_assert(what != "unknown name", "class", "an unknown dialect name is not refused with the package's Error")
__vp_assert(refused, "accepted", "an unknown dialect is accepted at construction")
__vp_reach(what)
