# P37: a normal form is reported only for files of the shape it stands for
# parameters: DATA (pattern: letters a-h are unknown characters), GIVEN (delimiters as a pattern, or None), VERBOSE
import unicodedata
from clevercsv.normal_form import detect_dialect_normal
import clevercsv.cparser_util

KNOWN = []


def unknown(name):
    for n, c in KNOWN:
        if n == name:
            return c
    c = __vp_sym(name, "str")
    __vp_assume(len(c) == 1)
    KNOWN.append((name, c))
    return c


def text(pattern):
    return "".join([unknown(c) if c in "abcdefgh" else c for c in pattern])


data = text(DATA)
args = {}
delims = [",", ";", "|", "\t"]
if GIVEN is not None:
    delims = [unknown(c) if c in "abcdefgh" else c for c in GIVEN]
    args["delimiters"] = list(delims)
elif __vp_pick("delimiters", "omitted", "None") == "None":
    args["delimiters"] = None
result = detect_dialect_normal(data, **args)
__vp_reach("normal form" if result is not None else "no normal form")

NO_ESCAPE = ["!", "?", '"', "'", ".", ",", ";", ":", "%", "*", "&", "#"]


def rows_of(t):
    while t[-1:] == "\n":
        t = t[:-1]
    while t[-1:] == "\r":
        t = t[:-1]
    end = None
    for i in range(len(t) - 1):
        if t[i] == "\r" and t[i + 1] == "\n":
            end = "\r\n"
            break
    if end is None:
        for c in t:
            if c == "\n":
                end = "\n"
                break
    if end is None:
        for c in t:
            if c == "\r":
                end = "\r"
                break
    if end is None:
        return [t]
    rows = []
    row = ""
    i = 0
    while i < len(t):
        if end == "\r\n":
            if t[i] == "\r" and i + 1 < len(t) and t[i + 1] == "\n":
                rows.append(row)
                row = ""
                i = i + 2
                continue
        elif t[i] == end:
            rows.append(row)
            row = ""
            i = i + 1
            continue
        row = row + t[i]
        i = i + 1
    rows.append(row)
    return rows


def quoted(t, q):
    return len(t) >= 2 and t[0] == q and t[len(t) - 1] == q


def cells(row, d, q):
    """the cells of a row when quotes hide delimiters"""
    out = [""]
    inside = False
    for c in row:
        if q != "" and c == q:
            inside = not inside
        if c == d and not inside:
            out.append("")
        else:
            out[-1] = out[-1] + c
    return out


def same_shape(rows, d, q):
    """every row splits into the same number, more than one, of cells"""
    n = [len(cells(r, d, q)) for r in rows]
    return len(n) > 0 and n[0] > 1 and all(k == n[0] for k in n)


if result is not None:
    d, q, e = result.delimiter, result.quotechar, result.escapechar
    __vp_assert(e == "", "escape", "a normal form has an escape character", e)
    __vp_assert(q == "" or q == "'" or q == '"', "quote", "a normal form has an unknown quote character", q)
    for i in range(len(data) - 1):
        u, v = data[i], data[i + 1]
        if v == "'" or v == '"' or any(v == x for x in delims):
            bad = unicodedata.category(u) == "Po" and not any(u == b for b in NO_ESCAPE)
            __vp_assert(not bad, "potential escape", "a sample with a potential escape character before a delimiter or quote has a normal form", data, d, q)
    rows = rows_of(data)
    if d == "":
        __vp_reach("single column")
        __vp_assert(len(rows) >= 2, "one row", "a single row is reported as a single column", data)
        for r in rows:
            if q == "":
                __vp_assert(not quoted(r, "'") and not quoted(r, '"'), "quoted row", "a quoted row is reported as part of an unquoted column", r, data)
            else:
                __vp_assert(quoted(r, q), "unquoted row", "a row that is not quoted is reported as part of a quoted column", r, q, data)
                inner = r[1:-1]
                __vp_assert(not any(c == q for c in inner), "nested", "a row of a quoted column has quotes inside", r, q, data)
    else:
        __vp_assert(any(d == x for x in delims), "delimiter", "a normal form has a delimiter that is not among those considered", d)
        __vp_reach("several columns")
        if not same_shape(rows, d, q):
            # rows that are quoted as a whole: their contents must have one shape
            whole = len(rows) >= 2 and q != "" and all(len(r) > 2 and quoted(r, q) for r in rows)
            __vp_assert(whole and same_shape([r[1:-1] for r in rows], d, ""), "shape", "the rows of a reported normal form do not split into the same number, more than one, of cells", data, d, q)
            __vp_reach("quoted rows")
        else:
            __vp_reach("one shape")
