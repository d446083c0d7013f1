# P13: conversions of a dialect lose nothing; exactly the invalid ones are refused
# parameters: HOW
import json
from clevercsv.dialect import SimpleDialect


class Encoded:
    def __init__(self, obj):
        self.obj = obj


def dumps(obj, **kw):
    return Encoded({k: obj[k] for k in obj})


def loads(s, **kw):
    return {k: s.obj[k] for k in s.obj}


__vp_stub("json.dumps", dumps)
__vp_stub("json.loads", loads)


def component(name):
    f = __vp_pick(name, "empty", "character", "undefined", "longer")
    if f == "undefined":
        return None, False
    s = "" if f == "empty" else __vp_sym(name, "str")
    if f == "character":
        __vp_assume(len(s) == 1)
    elif f == "longer":
        __vp_assume(len(s) > 1)
    return s, f != "longer"


d, ok_d = component("delimiter")
q, ok_q = component("quotechar")
e, ok_e = component("escapechar")
sf = __vp_pick("strict", "True", "False", "other")
strict = True if sf == "True" else False
if sf == "other":
    strict = __vp_pick("strictness", None, "yes", 2)
valid = ok_d and ok_q and ok_e and sf != "other"

x = SimpleDialect(d, q, e, strict=strict)


def check(y, what):
    __vp_assert(isinstance(y, SimpleDialect), "type", what + " does not give a SimpleDialect")
    __vp_assert(y is not x, "alias", what + " gives the same object")
    __vp_assert(__vp_same(y.delimiter, d), "delimiter", what + " changes the delimiter", y.delimiter, d)
    __vp_assert(__vp_same(y.quotechar, q), "quotechar", what + " changes the quote character", y.quotechar, q)
    __vp_assert(__vp_same(y.escapechar, e), "escapechar", what + " changes the escape character", y.escapechar, e)
    __vp_assert(__vp_same(y.strict, strict), "strict", what + " changes the strictness", y.strict, strict)
    __vp_assert(y == x and x == y, "equal", what + " gives a dialect that is not equal")
    __vp_assert(hash(y) == hash(x), "hash", what + " gives a dialect with another hash")


def refused(f):
    try:
        return False, f()
    except ValueError:
        return True, None


if HOW == "validate":
    r, _ = refused(lambda: x.validate())
    __vp_assert(r == (not valid), "validate", "validation " + ("accepts an invalid" if not r else "refuses a valid") + " dialect", d, q, e, strict)
    __vp_reach("refused" if r else "valid")
elif HOW == "serialize":
    r, s = refused(lambda: x.serialize())
    __vp_assert(r == (not valid), "serialize", "serialisation " + ("accepts an invalid" if not r else "refuses a valid") + " dialect", d, q, e, strict)
    if not r:
        check(SimpleDialect.deserialize(s), "serialising and deserialising")
        __vp_reach("serialize")
elif HOW == "dict":
    r, s = refused(lambda: x.to_dict())
    __vp_assert(r == (not valid), "to_dict", "conversion to a dictionary " + ("accepts an invalid" if not r else "refuses a valid") + " dialect", d, q, e, strict)
    if not r:
        check(SimpleDialect.from_dict(s), "converting to a dictionary and back")
        __vp_reach("dict")
else:
    __vp_assume(valid)
    try:
        c = x.to_csv_dialect()
    except (csv.Error, TypeError, ValueError, AssertionError):
        __vp_assert(d == "", "to_csv", "a dialect with a delimiter is not converted")
    else:
        check(SimpleDialect.from_csv_dialect(c), "converting to a csv dialect and back")
        __vp_assert(c.quoting != csv.QUOTE_NONE or q == "", "quoting", "a dialect with a quote character is converted to one without quoting")
        check(SimpleDialect.from_csv_dialect(RegisteredDialect(c.delimiter, c.quotechar, c.escapechar, c.strict, c.quoting)), "converting to a csv registry dialect and back")
        __vp_reach("csv")
