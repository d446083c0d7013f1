# use: files cli
# P29: standardising writes every row, in order, in the standard dialect
# parameters: N (paths), NOUT, NENC, FLAGS, SHAPE (widths), BAD (index of a file without a dialect, or -1)
FAULTY = False
WIDTHS = SHAPE
NLINES = len(SHAPE)
PATHS_ = [__vp_sym("filename %d" % i, "str") for i in range(N)]
OUTS = [__vp_sym("output %d" % i, "str") for i in range(NOUT)]
GENC = [__vp_sym("encoding %d" % i, "str") for i in range(NENC)]
everything = PATHS_ + OUTS
for i in range(len(everything)):
    __vp_assume(everything[i] != "")
    for j in range(i):
        __vp_assume(everything[i] != everything[j])
for e in GENC:
    __vp_assume(e != "")
target = __vp_sym("target encoding", "str")
__vp_assume(target != "")
DIALECTS = [SimpleDialect(char("delimiter %d" % i), "", "", strict=False) for i in range(N)]


def FINDS(sample):
    for i in range(N):
        if __vp_same(sample, full_text(PATHS_[i])):
            return None if i == BAD else DIALECTS[i]
    __vp_fail("sample", "detection does not see the text of an input file", sample)


given = {}
for f in FLAGS:
    given[f] = True
if NOUT:
    given["--output"] = OUTS
if NENC:
    given["--encoding"] = GENC
t = __vp_pick("--target-encoding", "not given", "given")
if t == "given":
    given["--target-encoding"] = target
status = run_command("standardize", PATHS_, given)
in_place = "--in-place" in FLAGS
all_closed("when the command ends")
refused = (in_place and NOUT > 0) or (NOUT > 0 and NOUT != N) or (NENC > 1 and NENC != N)
if refused:
    __vp_assert(status == 1, "refused", "options that do not fit are not refused with status 1", status)
    __vp_assert(len(FS.opened) == 0 and len(FS.detections) == 0 and len(FS.encodings) == 0, "refused", "files are touched although the options do not fit")
    __vp_assert(len(FS.err) > 0 and len(FS.out) == 0, "refused", "no message is printed to standard error", FS.out)
    __vp_reach("refused")
else:
    done = N if BAD < 0 else BAD
    outs = [fp for fp in FS.opened if fp.written is not None]
    __vp_assert(len(outs) == (done if in_place or NOUT else 0), "files", "not exactly one output file is written for each input file", len(outs))
    __vp_assert(len(FS.engines) == done, "files", "not every input file is parsed exactly once", len(FS.engines))
    reads = [fp for fp in FS.opened if fp.written is None and "b" not in fp.mode]
    for fp in reads:
        which = [i for i in range(N) if __vp_same(fp.path, PATHS_[i])]
        __vp_assert(len(which) == 1, "files", "a file is read that is no input file", fp.path)
        i = which[0]
        want = encoding_of(PATHS_[i]) if NENC == 0 else (GENC[0] if NENC == 1 else GENC[i])
        __vp_assert(__vp_same(fp.encoding, want), "encoding", "a file is read with another encoding than its own", fp.encoding, want)
    for i in range(done):
        p = PATHS_[i]
        __vp_assert(__vp_same(FS.engines[i][1], DIALECTS[i].delimiter) and FS.engines[i][2] == "" and FS.engines[i][3] == "", "dialect", "a file is read with another dialect than its own", FS.engines[i])
        rows = [x.row for x in lines_of(p)]
        if "--transpose" in FLAGS:
            width = 0
            for r in rows:
                width = max(width, len(r))
            cols = []
            for j in range(width):
                cols.append([r[j] if j < len(r) else "" for r in rows])
            rows = cols
        if in_place or NOUT:
            fp = outs[i]
            if in_place:
                __vp_assert(__vp_same(fp.path, "/tmp/temporary%d" % i), "destination", "in-place standardisation writes to something else than its temporary file", fp.path)
            else:
                __vp_assert(__vp_same(fp.path, OUTS[i]), "destination", "the output goes to another file than the one given for this input", fp.path)
            inp = encoding_of(p) if NENC == 0 else (GENC[0] if NENC == 1 else GENC[i])
            want = target if t == "given" else inp
            __vp_assert(__vp_same(fp.encoding, want), "target encoding", "the output is written in another encoding than the one requested", fp.encoding, want)
            __vp_assert(fp.newline == "", "newline", "the output is written with newline translation", fp.newline)
            parts = fp.written.parts
        else:
            __vp_assert(len(FS.out) == done, "printed", "not every file is printed exactly once", len(FS.out))
            __vp_assert(isinstance(FS.out[i][0], Text), "printed", "the standardised file is not printed", FS.out[i])
            parts = FS.out[i][0].parts
        for r in parts:
            __vp_assert(isinstance(r, Row), "rows", "something else than rows is written", r)
            d = r.dialect
            __vp_assert(d == "excel" or (d.delimiter == "," and d.quotechar == '"' and d.escapechar is None and d.lineterminator == "\r\n" and d.doublequote and d.quoting == csv.QUOTE_MINIMAL), "standard", "the output is not written in the excel dialect", d)
        __vp_assert(same_rows([r.cells for r in parts], rows), "rows", "the rows written are not those of the file", [r.cells for r in parts])
    if NOUT or in_place:
        __vp_assert(len(FS.out) == 0, "printed", "something is printed", FS.out)
    changed = [c for c in CONTENTS if not c[2]]
    if BAD >= 0:
        __vp_assert(status == 1, "status", "a failed detection does not give exit status 1", status)
        __vp_assert(len(FS.err) > 0, "status", "a failed detection prints nothing to standard error")
        __vp_assert(len(FS.moves) == len(changed), "moved", "the file is replaced although nothing was written")
        __vp_reach("no dialect")
    else:
        __vp_assert(len(FS.err) == 0, "status", "an error is printed although everything went well", FS.err)
        if in_place:
            __vp_assert(len(CONTENTS) == N and len(FS.moves) == len(changed), "moved", "not exactly the changed files are replaced")
            __vp_assert(status == (2 if changed else 0), "status", "the exit status does not tell whether a file was changed", status)
        else:
            __vp_assert(status == 0, "status", "the exit status after success is not 0", status)
        __vp_reach("in place" if in_place else ("files" if NOUT else "printed"))
