# use: files cli
# P31: generated code quotes every value it embeds
# parameters: COMMAND_NAME, PANDAS_FLAG, ENC
FAULTY = False
NLINES = 2
if ENC == "unknown":
    # detection of the encoding may find nothing
    ENCS.append((__vp_sym("filename", "str"), None))
path = __vp_sym("filename", "str")
__vp_assume(path != "")
q = __vp_pick("quote character", "none", "some")
e = __vp_pick("escape character", "none", "some")
d = __vp_pick("delimiter", "some", "none")
FOUND = SimpleDialect(char("delimiter") if d == "some" else "", char("quotechar") if q == "some" else "", char("escapechar") if e == "some" else "", strict=False)
enc = __vp_sym("encoding", "str")
__vp_assume(enc != "")
given = {}
if ENC == "given":
    given["--encoding"] = enc
if PANDAS_FLAG:
    given["--pandas"] = True
status = run_command(COMMAND_NAME, [path], given)
__vp_assert(status == 0, "status", "the command fails although a dialect was found", status)
if COMMAND_NAME == "code":
    __vp_assert(len(FS.out) == 1 and len(FS.out[0]) == 1, "printed", "the code is not printed in one piece", FS.out)
    text = FS.out[0][0]
else:
    text = "\n".join(PUSHED)
calls = __vp_code(text)


def find(name):
    found = [c for c in calls if c[0] == name]
    __vp_assert(len(found) == 1, "call", "the generated code does not contain exactly one call of %s" % name)
    return found[0]


def keyword(c, name):
    for k, v in c[2]:
        if k == name:
            return v
    __vp_fail("argument", "the generated call has no argument %s" % name)


want = enc if ENC == "given" else (None if ENC == "unknown" else encoding_of(path))
if PANDAS_FLAG:
    c = find("clevercsv.read_dataframe")
    __vp_assert(len(c[1]) == 1 and __vp_same(c[1][0], path), "value", "the file name embedded in the code is not the one given", c[1])
else:
    o = find("open")
    __vp_assert(len(o[1]) in (1, 2) and __vp_same(o[1][0], path), "value", "the file name embedded in the code is not the one given", o[1])
    __vp_assert(len(o[1]) == 1 or o[1][1] == "r", "value", "the generated code does not open the file for reading")
    __vp_assert(keyword(o, "newline") == "", "value", "the generated code opens the file with newline translation")
    __vp_assert(__vp_same(keyword(o, "encoding"), want), "value", "the encoding embedded in the code is not the one of the file", keyword(o, "encoding"))
    c = find("clevercsv.reader")
    __vp_assert(len(c[1]) == 1, "value", "the generated reader has unexpected arguments")
for n in ("delimiter", "quotechar", "escapechar"):
    __vp_assert(__vp_same(keyword(c, n), getattr(FOUND, n)), "value", "the %s embedded in the code is not the detected one" % n, keyword(c, n))
if PANDAS_FLAG and ENC == "given":
    __vp_assert(__vp_same(keyword(c, "encoding"), enc), "value", "the encoding given is not embedded in the code")
__vp_reach("%s %s" % (COMMAND_NAME, PANDAS_FLAG))
