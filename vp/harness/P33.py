# P33: errors of the parsing and csv engines surface as the package's Error, others unchanged
# parameters: ENTRY
from clevercsv.cparser_util import parse_data, parse_string
from clevercsv.dialect import SimpleDialect


class Boom(Exception):
    pass


MSG = __vp_sym("message", "str")
KIND = __vp_pick("failure", "engine", "caller", "caller value error", "csv error of the caller")
WHEN = __vp_pick("when", 0, 1)
THROWN = []


def throw(engine):
    if KIND == "engine":
        e = engine(MSG)
    elif KIND == "caller":
        e = Boom(MSG)
    elif KIND == "caller value error":
        e = ValueError(MSG)
    else:
        __vp_assume(engine is not csv.Error)
        e = csv.Error(MSG)
    THROWN.append(e)
    raise e


class Parser:
    def __init__(self, data, delimiter=None, quotechar=None, escapechar=None, field_limit=None, strict=None, return_quoted=False):
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        i = self.i
        self.i = self.i + 1
        if i == WHEN:
            throw(EngineError)
        return ["a", "b"]


class EngineWriter:
    def __init__(self):
        self.i = 0

    def writerow(self, row):
        if self.i == WHEN:
            throw(csv.Error)
        self.i = self.i + 1
        return __vp_new("written", "int")

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)


def engine_writer(csvfile, dialect="excel", **kw):
    return EngineWriter()


__vp_stub("clevercsv.cparser.Parser", Parser)
__vp_stub("csv.writer", engine_writer)
f = ["a,b"]
caught = None
try:
    if ENTRY == "next":
        r = clevercsv.reader(f)
        next(r)
        next(r)
    elif ENTRY == "for":
        for row in clevercsv.reader(f):
            pass
    elif ENTRY == "list":
        list(clevercsv.reader(f))
    elif ENTRY == "DictReader":
        for row in clevercsv.DictReader(f):
            pass
    elif ENTRY == "DictReader names":
        d = clevercsv.DictReader(f, fieldnames=["p", "q"])
        next(d)
        next(d)
    elif ENTRY == "fieldnames":
        d = clevercsv.DictReader(f)
        d.fieldnames
        next(d)
    elif ENTRY == "parse_data":
        list(parse_data(f, delimiter=","))
    elif ENTRY == "parse_string":
        list(parse_string("a,b", SimpleDialect(",", "", "")))
    elif ENTRY == "writerow":
        w = clevercsv.writer(f)
        w.writerow(["a"])
        w.writerow(["a"])
    elif ENTRY == "writerows":
        w = clevercsv.writer(f)
        w.writerows([["a"], ["b"]])
    elif ENTRY == "DictWriter":
        w = clevercsv.DictWriter(f, ["p"])
        w.writeheader()
        w.writerow({"p": 1})
    elif ENTRY == "DictWriter rows":
        w = clevercsv.DictWriter(f, ["p"])
        w.writerows([{"p": 1}, {"p": 2}])
except BaseException as e:
    caught = e
__vp_assert(caught is not None, "swallowed", "an error is swallowed")
if KIND == "engine":
    __vp_assert(isinstance(caught, clevercsv.Error), "class", "an error of the engine does not surface as the package's Error")
    __vp_assert(len(caught.args) == 1 and __vp_same(caught.args[0], MSG), "message", "the message of an error is lost", caught.args)
else:
    __vp_assert(caught is THROWN[0], "passed", "an error of the caller's own source does not pass through unchanged")
__vp_assert(issubclass(clevercsv.Error, Exception) and issubclass(clevercsv.Error, EngineError), "hierarchy", "the package's Error is not a kind of the engine's error")
__vp_reach(ENTRY + " " + KIND)
