# P42: the type score is the share of the cells whose type is known
# parameters: SHAPE (number of cells of each row)
from clevercsv.consistency import ConsistencyDetector
from clevercsv.dialect import SimpleDialect

sample = __vp_sym("sample", "str")
delim = __vp_sym("delimiter", "str")
quote = __vp_sym("quotechar", "str")
escape = __vp_sym("escapechar", "str")
CELLS = []
ROWS = []
for i in range(len(SHAPE)):
    row = []
    for j in range(SHAPE[i]):
        k = len(CELLS)
        c = (__vp_sym("cell" + str(k), "str"), __vp_pick("quoted " + str(k), False, True) if k < 2 else False)
        CELLS.append(c)
        row.append(c)
    ROWS.append(row)
KNOWN = [__vp_pick("known " + str(k), False, True) for k in range(len(CELLS))]


class Parser:
    def __init__(self, data, delimiter=None, quotechar=None, escapechar=None, field_limit=None, strict=None, return_quoted=False):
        __vp_assert(__vp_same(delimiter, delim) and __vp_same(quotechar, quote) and __vp_same(escapechar, escape), "dialect", "the cells are not those of the dialect that is scored", delimiter, quotechar, escapechar)
        self.rows = list(ROWS)
        self.flag = return_quoted

    def __iter__(self):
        return self

    def __next__(self):
        if not self.rows:
            raise StopIteration
        r = self.rows.pop(0)
        return list(r) if self.flag else [c for c, q in r]


def is_known_type(self, cell, is_quoted=False):
    for k in range(len(CELLS)):
        if __vp_same(cell, CELLS[k][0]):
            __vp_assert(bool(is_quoted) == CELLS[k][1], "quoted", "type detection is told the wrong thing about the quotes of a cell", is_quoted)
            return KNOWN[k]
    __vp_fail("cell", "type detection is asked about something that is no cell", cell)


__vp_stub("clevercsv.cparser.Parser", Parser)
__vp_patch("clevercsv.detect_type:TypeDetector.is_known_type", is_known_type)
d = SimpleDialect(delim, quote, escape)
eps = __vp_pick("eps", None, 0.25)
det = ConsistencyDetector()
t = det.compute_type_score(sample, d) if eps is None else det.compute_type_score(sample, d, eps=eps)
eps = 1e-10 if eps is None else eps
n = len(CELLS)
k = len([x for x in KNOWN if x])
want = eps if n == 0 or k / n < eps else k / n
__vp_assert(t == want, "type score", "the type score is not the share of cells of known type, but at least eps", t, k, n)
__vp_assert(0 < t <= 1, "range", "the type score is not between 0 and 1", t)
__vp_reach("type score")
if n == 0:
    __vp_reach("no cells")
