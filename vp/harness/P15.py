# P15: what is handed to the package is not changed
# parameters: ENTRY
import clevercsv
from clevercsv import _regexes, break_ties, consistency, detect, detect_pattern, detect_type, dialect, escape, normal_form, potential_dialects
from clevercsv.dialect import SimpleDialect

SD = SimpleDialect


def score(data, dialect, eps=0.001):
    return [0.5, 0.25, 0.75][len(dialect.quotechar) + len(dialect.escapechar)]


def type_score(self, data, dialect, eps=1e-10):
    return 0.5


def parse(data, dialect, return_quoted=False):
    k = __vp_pick("parse of " + dialect.quotechar + "/" + dialect.escapechar + "/" + str(dialect.delimiter), 1, 2)
    return iter([[str(k), "x"]])


T = __vp_sym("cell", "str")
ALL = [SD(",", "", ""), SD(",", '"', ""), SD(",", "'", ""), SD(",", '"', "\\"), SD(",", "", "\\")]
if ENTRY == "types":
    given = {k: v for k, v in _regexes.DEFAULT_TYPE_REGEXES.items()}
    d = detect_type.TypeDetector(patterns=given) if __vp_pick("whitespace", True, False) else detect_type.TypeDetector(given, strip_whitespace=False)
    d.list_known_types()
    part = {"url": given["url"], "number_1": given["number_1"]}
    detect_type.TypeDetector(patterns=part)
    e = detect_type.TypeDetector()
    e.list_known_types()
    detect_type.TypeDetector(patterns=None)
    detect_type.TypeDetector(patterns={})
elif ENTRY == "candidates":
    __vp_stub("regex sub", lambda repl, where, *args, **kw: where)
    data = "a,'"
    which = __vp_pick("which", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11)
    if which == 0:
        potential_dialects.get_delimiters(data, "UTF-8", delimiters=[",", "x", ";"])
    elif which == 1:
        potential_dialects.get_delimiters(data, "UTF-8", delimiters={",", "x"})
    elif which == 2:
        potential_dialects.get_delimiters(data, "UTF-8", block_cat=["Po"], block_char=["a", ","])
    elif which == 3:
        potential_dialects.get_delimiters(data, "UTF-8", block_char={"a", ","})
    elif which == 4:
        potential_dialects.get_delimiters(data, "UTF-8")
    elif which == 5:
        potential_dialects.get_quotechars(data, quote_chars=["'", "x"])
    elif which == 6:
        potential_dialects.get_quotechars(data, quote_chars={"'", "x"})
    elif which == 7:
        potential_dialects.get_quotechars(data)
    elif which == 8:
        potential_dialects.get_dialects(data, delimiters=[",", ";", "x"])
    elif which == 11:
        potential_dialects.get_delimiters(data, "UTF-8", delimiters=[",", "x"], block_cat=["Po"], block_char=["a", ","])
    elif which == 9:
        potential_dialects.get_dialects("a,", delimiters=[",", ";"], test_masked_by_quotes=True)
    else:
        potential_dialects.get_dialects(data)
elif ENTRY == "escape":
    escape.is_potential_escapechar("\\", "UTF-8")
    escape.is_potential_escapechar("#", "UTF-8", block_char=["!", "#"])
    escape.is_potential_escapechar("#", "latin-1", block_char={"!"})
    escape.is_potential_escapechar("!", "UTF-8")
elif ENTRY[:4] == "ties":
    __vp_patch("clevercsv.cparser_util:parse_string", parse)
    n = int(ENTRY[4:])
    ds = ALL[:n]
    if __vp_pick("delimiters", "one", "two") == "two":
        ds[-1] = SD(" ", "", "")
    break_ties.tie_breaker("data", ds)
    break_ties.reduce_pairwise("data", ds)
    if n == 4:
        break_ties.break_ties_four("data", ds)
elif ENTRY == "scores":
    __vp_patch("clevercsv.detect_pattern:pattern_score", score)
    __vp_patch("clevercsv.consistency:ConsistencyDetector.compute_type_score", type_score)
    __vp_stub("print", lambda *args, **kw: None)
    for skip in (True, False):
        for verbose in (True, False):
            c = consistency.ConsistencyDetector(skip=skip, verbose=verbose)
            c.compute_consistency_scores("data", [ALL[3], ALL[1], ALL[0], ALL[2]])
    S = consistency.ConsistencyScore
    consistency.ConsistencyDetector.get_best_dialects({ALL[0]: S(0.5, 0.5, 0.25), ALL[1]: S(0.1, None, None), ALL[2]: S(0.5, 0.5, 0.25)})
    consistency.ConsistencyDetector.get_best_dialects({})
elif ENTRY == "forms":
    rows = ["a,b", '"c",d', "'e',f"]
    for f in (normal_form.is_form_1, normal_form.is_form_2, normal_form.is_form_3, normal_form.is_form_4, normal_form.is_form_5):
        f(rows, SD(",", '"', ""))
        f(["a", "b"], SD("", "", ""))
        f(['"a","b"', '"c","d"'], SD(",", '"', ""))
        f([], SD(",", '"', ""))
    normal_form.every_row_has_delim_and_is_the_same_length(rows, SD(",", '"', ""))
    normal_form.split_row(rows[0], SD(",", '"', ""))
    normal_form.every_row_has_delim(rows, SD(",", '"', ""))
    normal_form.detect_dialect_normal("a,b\nc,d", delimiters=[";", ",", "x"])
    normal_form.detect_dialect_normal("a,b\nc,d")
elif ENTRY == "patterns":
    detect_pattern.fill_empties("CDDC")
    d = SD(",", '"', "")
    e = SD("", "", "")
    __vp_pick("validate", d, e).validate()
    for x in (d, e):
        x.to_dict()
        x.serialize()
        x.to_csv_dialect()
        repr(x)
        hash(x)
        SD.from_dict(x.to_dict())
    d == e
    d < SD(";", '"', "")
    SD.deserialize(d.serialize())
    SD.from_csv_dialect(d.to_csv_dialect())
    SD.from_dict({"delimiter": ",", "quotechar": '"', "escapechar": "", "strict": True})
elif ENTRY == "detector":
    def nothing(*args, **kw):
        return __vp_pick("found", None, ALL[1])
    __vp_patch("clevercsv.normal_form:detect_dialect_normal", nothing)
    __vp_patch("clevercsv.consistency:ConsistencyDetector.detect", nothing)
    d = detect.Detector()
    g = [",", ";"]
    d.detect("a,b", delimiters=g, verbose=False, method="auto")
    d.sniff("a,b", delimiters=g)
    d.detect("a,b", delimiters=g, method=detect.DetectionMethod.CONSISTENCY)
elif ENTRY == "classes":
    import csv

    class One(csv.Dialect):
        delimiter = ";"
        quotechar = '"'
        doublequote = True
        skipinitialspace = False
        lineterminator = __vp_pick("lineterminator", None, "", "\r\n")
        quoting = csv.QUOTE_MINIMAL

    class Nothing(csv.Dialect):
        pass

    class Sink:
        def write(self, text):
            return None

    class Engine:
        def writerow(self, row):
            return list(row) and None

        def writerows(self, rows):
            for r in rows:
                list(r)

    __vp_stub("_csv.writer", lambda f, *args, **kw: Engine())
    __vp_stub("csv.writer", lambda f, *args, **kw: Engine())
    which = __vp_pick("dialect", One, Nothing)
    w = clevercsv.writer(Sink(), dialect=which, foo=3, quoting=csv.QUOTE_ALL)
    w.writerow(["b", "a"])
    w.writerows([["b", "a"], ("d", "c")])
    if which is One:
        SD.from_csv_dialect(which)
        clevercsv.reader(["a;b"], dialect=which, delimiter="x", other=2)
    dw = clevercsv.DictWriter(Sink(), ["b", "a"], dialect=which)
    dw.writeheader()
    dw.writerow({"a": 1})
    dw.writerows([{"b": 1}, {}])
__vp_reach(ENTRY)
