# P41: header detection votes on the rows of the sample under the detected dialect
# parameters: HEADER (cells), ROWS (choices for each following row), FOUND (whether a dialect is detected), MAX (max_rows_to_check or None)
from clevercsv.detect import DetectionMethod, Detector
from clevercsv.dialect import SimpleDialect
from clevercsv.exceptions import NoDetectionResult

sample = "p;'q\rr'\r\ns;\x0bt\ru;v\n"
d = SimpleDialect(";", "'", "")
TABLE = [list(HEADER)] + [list(__vp_pick("row " + str(i), *ROWS[i])) for i in range(len(ROWS))]
READ = []


LINES = {"": ["p;'q\r", "r'\r\n", "s;\x0bt\r", "u;v\n"], "\n": ["p;'q\rr'\r\n", "s;\x0bt\ru;v\n"], None: ["p;'q\n", "r'\n", "s;\x0bt\n", "u;v\n"]}


class Memory:
    def __init__(self, initial_value="", newline="\n"):
        __vp_assert(initial_value == sample, "text", "something else than the sample is read", initial_value)
        self.left = list(LINES[newline])

    def __iter__(self):
        return self

    def __next__(self):
        if not self.left:
            raise StopIteration
        return self.left.pop(0)

    def readlines(self):
        r, self.left = self.left, []
        return r


class Parser:
    def __init__(self, data, delimiter=None, quotechar=None, escapechar=None, field_limit=None, strict=None, return_quoted=False):
        __vp_assert(delimiter == ";" and quotechar == "'" and not escapechar and not strict, "dialect", "the rows are not those of the detected dialect", delimiter, quotechar, escapechar)
        items = [x for x in data]
        __vp_assert("".join(items) == sample, "text", "something else than the sample is read", items)
        for x in items:
            __vp_assert("\r" not in x[:-2] and "\n" not in x[:-1] and (x[-2:] == "\r\n" or x[-2:-1] != "\r"), "line ends", "the sample is not read line by line", x)
        self.left = [list(r) for r in TABLE]

    def __iter__(self):
        return self

    def __next__(self):
        if not self.left:
            raise StopIteration
        READ.append(1)
        return self.left.pop(0)


def detect(self, text, delimiters=None, verbose=False, method="auto", skip=True):
    __vp_assert(text == sample, "sample", "the dialect detected is not that of the sample", text)
    __vp_assert(method in ("auto", DetectionMethod.AUTO) and delimiters is None and skip, "detection", "the dialect is not the one detection gives for the sample", method, delimiters, skip)
    return d if FOUND else None


def kind(cell):
    for t in ("int", "float", "complex"):
        try:
            {"int": int, "float": float, "complex": complex}[t](cell)
            return t
        except (ValueError, OverflowError):
            pass
    return len(cell)


def vote():
    """the rule of the csv module"""
    n = 20 if MAX is None else MAX
    votes = 0
    for c in range(len(HEADER)):
        kinds = [kind(r[c]) for r in TABLE[1:n + 2] if len(r) == len(HEADER)]
        # a column whose cells disagree does not vote; when they disagree again it is gone already
        if any(k != kinds[0] for k in kinds):
            continue
        if kinds == []:
            votes += 1
        elif isinstance(kinds[0], int):
            votes += 1 if len(HEADER[c]) != kinds[0] else -1
        else:
            try:
                {"int": int, "float": float, "complex": complex}[kinds[0]](HEADER[c])
                votes -= 1
            except (ValueError, TypeError):
                votes += 1
    return votes > 0


__vp_stub("clevercsv.cparser.Parser", Parser)
__vp_stub("io.StringIO", Memory)
__vp_patch("clevercsv.detect:Detector.detect", detect)
if not FOUND:
    try:
        Detector().has_header(sample)
        __vp_fail("nothing", "header detection answers although no dialect was detected")
    except NoDetectionResult:
        pass
    __vp_assert(READ == [], "nothing", "the sample is parsed although no dialect was detected")
    __vp_reach("no dialect")
else:
    r = Detector().has_header(sample) if MAX is None else Detector().has_header(sample, max_rows_to_check=MAX)
    __vp_assert(r is True or r is False, "answer", "header detection gives no yes or no", r)
    __vp_assert(r == vote(), "vote", "header detection does not follow the voting rule", TABLE, r)
    __vp_reach("header" if r else "no header")
