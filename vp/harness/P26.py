# use: files cli
# P26: options given on the command line reach the code that implements them
# parameters: CMD, FOUND_IT, FLAGS (options without a value that are given), SHAPE (cells per line)
class Json:
    def __init__(self, value):
        self.value = value


def dumps(value, **kw):
    return Json(value)


__vp_stub("json.dumps", dumps)
FAULTY = False
NLINES = len(SHAPE)
path = __vp_sym("filename", "str")
__vp_assume(path != "")
quote = __vp_pick("quote", "", "'")
FOUND = SimpleDialect(char("delimiter"), quote, "", strict=False) if FOUND_IT else None
enc = __vp_sym("encoding", "str")
__vp_assume(enc != "")
n = __vp_sym("num_chars", "int")
__vp_assume(n > 0)
target = __vp_sym("target encoding", "str")
__vp_assume(target != "")
SHORT.append(("-e", "--encoding"))
SHORT.append(("-n", "--num-chars"))
SHORT.append(("-t", "--transpose"))
SHORT.append(("-p", "--pandas"))
SHORT.append(("-i", "--in-place"))
SHORT.append(("-o", "--output"))
SHORT.append(("-E", "--target-encoding"))
SHORT.append(("-c", "--consistency"))
SHORT.append(("-p", "--plain"))
SHORT.append(("-j", "--json"))
given = {}
for f in FLAGS:
    given[f] = True
e_form = __vp_pick("--encoding", "given", "not given")
if e_form == "given":
    given["--encoding"] = [enc]
n_form = __vp_pick("--num-chars", "given", "not given")
if n_form == "given":
    given["--num-chars"] = n
out_path = __vp_sym("output", "str")
__vp_assume(out_path != path)
t_form = "not given"
if CMD == "standardize":
    if OUTPUT:
        given["--output"] = [out_path]
    t_form = __vp_pick("--target-encoding", "given", "not given")
    if t_form == "given":
        given["--target-encoding"] = target
WIDTHS = SHAPE


status = run_command(CMD, [path], given)

want_enc = enc if e_form == "given" else encoding_of(path)
if e_form == "given":
    __vp_assert(len(FS.encodings) == 0, "encoding", "the encoding is detected although it is given")
__vp_assert(len(FS.detections) == 1, "detection", "the dialect is not detected exactly once", len(FS.detections))
sample, delims, verbose, method, skip = FS.detections[0]
want = full_text(path)[:n] if n_form == "given" else full_text(path)
__vp_assert(__vp_same(sample, want), "num-chars", "detection does not see the requested number of characters", sample, want)
__vp_assert(delims is None, "delimiters", "delimiters are restricted", delims)
__vp_assert(bool(verbose) == ("--verbose" in FLAGS), "verbose", "the verbosity does not reach the detection", verbose)
__vp_assert(method == ("consistency" if "--consistency" in FLAGS else "auto"), "method", "the detection method does not reach the detection", method)
__vp_assert(bool(skip) == ("--no-skip" not in FLAGS), "skip", "the skip option does not reach the detection", skip)
for fp in FS.opened:
    if "r" in fp.mode and "b" not in fp.mode:
        __vp_assert(__vp_same(fp.path, path), "path", "another file is read than the one given", fp.path)
        __vp_assert(__vp_same(fp.encoding, want_enc), "encoding", "the file is read with another encoding than the one given or detected", fp.encoding)
        __vp_assert(fp.newline == "", "newline", "the file is read with newline translation", fp.newline)
if not FOUND_IT:
    __vp_assert(status == 1, "failure", "a failed detection does not give exit status 1", status)
    __vp_assert(len(FS.err) > 0, "failure", "a failed detection prints nothing to standard error")
    __vp_assert(len(FS.out) == 0, "failure", "a failed detection prints something to standard output", FS.out)
    __vp_assert(len(DISK) == 0 and len(FS.moves) == 0 and len(FS.temps) == 0, "failure", "a file is written although detection failed")
    __vp_assert(len(VIEWED) == 0 and len(PUSHED) == 0 and len(INTERACT) == 0, "failure", "something is shown although detection failed")
    __vp_reach(CMD + " fails")
else:
    if not (CMD == "standardize" and "--in-place" in FLAGS):
        __vp_assert(status == 0, "status", "the exit status after success is not 0", status)
    __vp_assert(len(FS.err) == 0, "status", "an error is reported although everything went well", FS.err)
    rows = [x.row for x in lines_of(path)]
    if "--transpose" in FLAGS:
        width = 0
        for r in rows:
            width = max(width, len(r))
        fill = None if CMD == "view" else ""
        rows = [[r[j] if j < len(r) else fill for r in rows] for j in range(width)]
    for g in FS.engines:
        __vp_assert(__vp_same(g[1], FOUND.delimiter) and __vp_same(g[2], quote) and __vp_same(g[3], ""), "dialect", "the file is read with another dialect than the detected one", g)
    if CMD == "view":
        __vp_assert(len(VIEWED) == 1 and same_rows(VIEWED[0], rows), "transpose", "what is shown is not the (transposed) table", VIEWED)
        __vp_assert(len(FS.out) == 0, "output", "something is printed", FS.out)
    if CMD == "standardize":
        ws = []
        for w in FS.writers:
            d = w.dialect
            __vp_assert(d == "excel" or (d.delimiter == "," and d.quotechar == '"' and d.escapechar is None and d.lineterminator == "\r\n" and d.doublequote), "standard", "the output is not written in the excel dialect", d)
        outs = [fp for fp in FS.opened if fp.written is not None]
        if "--in-place" in FLAGS:
            __vp_assert(len(outs) == 1 and __vp_same(outs[0].path, "/tmp/temporary0"), "in place", "in-place standardisation writes to something else than its temporary file")
        elif OUTPUT:
            __vp_assert(len(outs) == 1 and __vp_same(outs[0].path, out_path), "output", "the output is not written to the file given", outs)
        else:
            __vp_assert(len(outs) == 0, "output", "a file is written although no output file was given", outs)
        if len(outs):
            __vp_assert(__vp_same(outs[0].encoding, target if t_form == "given" else want_enc), "target-encoding", "the output is written in another encoding than the one requested", outs[0].encoding)
            __vp_assert(outs[0].newline == "", "newline", "the output is written with newline translation", outs[0].newline)
            cells = [r.cells for r in outs[0].written.parts]
        else:
            __vp_assert(len(FS.out) == 1 and isinstance(FS.out[0][0], Text), "output", "the standardised file is not printed", FS.out)
            cells = [r.cells for r in FS.out[0][0].parts]
        __vp_assert(same_rows(cells, rows), "transpose", "what is written is not the (transposed) table", cells)
        if "--in-place" not in FLAGS:
            __vp_assert(len(FS.moves) == 0, "in place", "the input file is replaced although it was not asked for")
    if CMD == "detect":
        shown = __vp_freeze(FS.out)
        if "--json" in FLAGS:
            __vp_assert(len(FS.out) == 1 and isinstance(FS.out[0][0], Json), "json", "the dialect is not printed as one JSON object", FS.out)
            v = FS.out[0][0].value
            __vp_assert(len(v) == (5 if "--add-runtime" in FLAGS else 4), "json", "the JSON object does not have the expected keys", list(v))
            __vp_assert(__vp_same(v["delimiter"], FOUND.delimiter) and v["quotechar"] == quote and v["escapechar"] == "" and v["strict"] == False, "json", "the JSON object is not the dialect", v)
            if "--add-runtime" in FLAGS:
                __vp_assert("runtime" in v, "add-runtime", "the JSON object has no runtime")
        elif "--plain" in FLAGS:
            __vp_assert(len(FS.out) == (4 if "--add-runtime" in FLAGS else 3), "plain", "the components are not printed on separate lines", FS.out)
            __vp_assert(__vp_mentions(FS.out[0], FOUND.delimiter), "plain", "the delimiter is not printed", FS.out)
        else:
            __vp_assert(len(FS.out) == (2 if "--add-runtime" in FLAGS else 1), "default", "the dialect is not printed", FS.out)
            __vp_assert(__vp_mentions(FS.out[0], FOUND.delimiter), "default", "the dialect is not printed", FS.out)
        for line in FS.out:
            __vp_note(line)
    if CMD in ("code", "explore"):
        if CMD == "code":
            text = FS.out[0][0]
            __vp_assert(len(INTERACT) == 0, "code", "the code is run")
        else:
            text = "\n".join(PUSHED)
            __vp_assert(len(INTERACT) == 1, "explore", "no interactive session is started")
        __vp_assert(__vp_mentions(text, path), "code", "the code does not mention the file", text)
        __vp_assert(("read_dataframe" in __vp_show(text)) == ("--pandas" in FLAGS), "pandas", "the code does not read the file in the requested form", text)
        if e_form == "given":
            __vp_assert(__vp_mentions(text, enc), "encoding", "the encoding given is not in the code", text)
    __vp_reach(CMD)
all_closed("when the command ends")
