# P01, P02, P04, P05: what the readers hand to the parser and give back
# parameters: ENTRY
from clevercsv.cparser_util import parse_data, parse_string
from clevercsv.dialect import SimpleDialect

ITEMS = [__vp_sym("item 1", "str"), __vp_sym("item 2", "str")]
sample = "p,\"q\rr\"\r\ns,\x0bt\ru,v\n"
LINES = {"": ["p,\"q\r", "r\"\r\n", "s,\x0bt\r", "u,v\n"], "\n": ["p,\"q\rr\"\r\n", "s,\x0bt\ru,v\n"], None: ["p,\"q\n", "r\"\n", "s,\x0bt\n", "u,v\n"]}
ROWS = [[__vp_sym("cell 1", "str"), ""], [], [__vp_sym("cell 2", "str")]]
FLAGGED = [[(ROWS[0][0], True), ("", False)], [], [(ROWS[2][0], False)]]
MADE = []


class Memory:
    def __init__(self, initial_value="", newline="\n"):
        __vp_assert(initial_value == sample, "data", "the parser reads something else than the text it was asked to parse", initial_value)
        self.items = list(LINES[newline])

    def __iter__(self):
        return self

    def __next__(self):
        if self.items:
            return self.items.pop(0)
        raise StopIteration

    def readlines(self):
        r, self.items = self.items, []
        return r


class Parser:
    def __init__(self, data, delimiter=None, quotechar=None, escapechar=None, field_limit=None, strict=None, return_quoted=False):
        MADE.append((data, delimiter, quotechar, escapechar, field_limit, strict, return_quoted))
        self.data = data
        self.left = None

    def __iter__(self):
        return self

    def __next__(self):
        if self.left is None:
            check_data(self.data)
            self.left = [list(r) for r in (FLAGGED if MADE[-1][6] else ROWS)]
        if not self.left:
            raise StopIteration
        return self.left.pop(0)


def check_data(data):
    got = [x for x in data]
    if ENTRY == "string":
        __vp_assert("".join(got) == sample, "data", "the parser reads something else than the untranslated text it was asked to parse", got)
        for x in got:
            __vp_assert("\r" not in x[:-2] and "\n" not in x[:-1] and (x[-2:] == "\r\n" or x[-2:-1] != "\r"), "data", "the text is not given to the parser line by line", x)
    else:
        __vp_assert(len(got) == len(ITEMS) and all(__vp_same(x, y) for x, y in zip(got, ITEMS)), "data", "the parser reads something else than the items of the source", got)


__vp_stub("clevercsv.cparser.Parser", Parser)
__vp_stub("io.StringIO", Memory)
limit = __vp_sym("limit", "int")
__vp_assume(limit >= 0)
strict = __vp_pick("strict", False, True)
quoted = False
want_chars = (",", '"', "\\")
d = SimpleDialect(",", '"', "\\", strict=strict)
if ENTRY == "string":
    clevercsv.field_size_limit(limit)
    quoted = __vp_pick("return_quoted", None, False, True)
    rows = parse_string(sample, d) if quoted is None else parse_string(sample, d, return_quoted=quoted)
elif ENTRY == "data":
    form = __vp_pick("source", "list", "iterator")
    src = list(ITEMS) if form == "list" else iter(list(ITEMS))
    quoted = __vp_pick("return_quoted", None, False, True)
    how = __vp_pick("dialect", "dialect", "parts", "override", "nothing")
    kw = {}
    if quoted is not None:
        kw["return_quoted"] = quoted
    if how == "dialect":
        rows = parse_data(src, dialect=d, **kw)
    elif how == "parts":
        rows = parse_data(src, delimiter=",", quotechar='"', escapechar="\\", strict=strict, **kw)
    elif how == "nothing":
        rows = parse_data(src, dialect=SimpleDialect("x", "y", "z", strict=strict), delimiter="", quotechar="", escapechar="", **kw)
        want_chars = ("", "", "")
    else:
        rows = parse_data(src, dialect=SimpleDialect("x", "y", "z", strict=not strict), delimiter=",", quotechar='"', escapechar="\\", strict=strict, **kw)
    clevercsv.field_size_limit(limit)
else:
    form = __vp_pick("source", "list", "iterator")
    src = list(ITEMS) if form == "list" else iter(list(ITEMS))
    rows = clevercsv.reader(src, dialect=d)
    clevercsv.field_size_limit(limit)
got = [r for r in rows]
want = FLAGGED if quoted else ROWS
__vp_assert(len(MADE) == 1, "data", "the source is not parsed exactly once", len(MADE))
m = MADE[0]
__vp_assert(all((x or "") == y for x, y in zip(m[1:4], want_chars)), "characters", "the parser is given other characters than those of the dialect", m[1], m[2], m[3])
__vp_assert(__vp_same(m[4], limit) or m[4] == limit, "limit", "the parser is given another limit than the configured one", m[4])
__vp_assert(bool(m[5]) == strict, "strict", "the parser is given another strictness than that of the dialect", m[5])
__vp_assert(bool(m[6]) == bool(quoted), "quoted", "the parser is told the wrong thing about quoting information", m[6])
__vp_assert(len(got) == 3, "rows", "not every record of the parser is delivered once", got)
for i in range(3):
    __vp_assert(len(got[i]) == len(want[i]), "rows", "a record is delivered with other cells than the parser found", got[i])
    for j in range(len(want[i])):
        if quoted:
            __vp_assert(__vp_same(got[i][j][0], want[i][j][0]) or got[i][j][0] == want[i][j][0], "rows", "a cell is not the one the parser found", got[i][j])
            __vp_assert(got[i][j][1] is want[i][j][1], "quoted", "the quoting information of a cell is not what the parser found", got[i][j])
        else:
            __vp_assert(__vp_same(got[i][j], want[i][j]) or got[i][j] == want[i][j], "rows", "a cell is not the one the parser found", got[i][j])
__vp_reach(ENTRY)
