# use: files cli
# P28: in-place standardisation replaces the file only with complete output
# parameters: FLAGS, NLINES, FAULTS, BLOCKS (of 64 KiB in every file that is compared)
NCHUNKS = BLOCKS
FAULTY = FAULTS
path = __vp_sym("filename", "str")
__vp_assume(path != "")
FOUND = SimpleDialect(char("delimiter"), "", "", strict=False)
WIDTHS = [2, 1, 2][:NLINES]
given = {"--in-place": True}
for f in FLAGS:
    given[f] = True
before = []


def checked_move(src, dst, *args, **kw):
    w = on_disk(src)
    __vp_assert(w is not None and w.closed, "incomplete", "the file is replaced before the new contents are written and closed", src)
    __vp_assert(__vp_same(dst, path), "replaced", "another file is replaced than the one given", dst)
    __vp_assert(same_rows([r.cells for r in w.parts], expected), "incomplete", "the file is replaced although the new contents are not complete", len(w.parts))
    for f in FS.opened:
        __vp_assert(f.closed, "incomplete", "the file is replaced while files are open", f.path)
    return move(src, dst)


__vp_stub("os.replace", checked_move)
__vp_stub("os.rename", checked_move)
__vp_stub("shutil.move", checked_move)
__vp_stub("shutil.copy", checked_move)
__vp_stub("shutil.copyfile", checked_move)
__vp_stub("shutil.copy2", checked_move)
rows = [x.row for x in lines_of(path)]
expected = rows
if "--transpose" in FLAGS:
    expected = []
    for j in range(2 if NLINES else 0):
        expected.append([r[j] if j < len(r) else "" for r in rows])
failure = None
status = None
try:
    status = run_command("standardize", [path], given)
except Boom as e:
    failure = e
for k in FS.events:
    if k[0] == "truncate":
        __vp_assert(not __vp_same(k[1], path), "modified", "the input file is opened for writing")
__vp_assert(len(FS.temps) == 0, "temporary", "a temporary file is left behind", FS.temps)
__vp_assert(len(FS.out) == 0, "output", "something is printed", FS.out)
all_closed("when the command ends")
if FS.failed:
    __vp_assert(failure is not None, "swallowed", "a failure is not reported", status)
    __vp_assert(len(FS.moves) == 0, "replaced", "the file is replaced although a step failed")
    __vp_reach("failure")
else:
    __vp_assert(len(CONTENTS) == 1, "compared", "the new contents are not compared with the input file")
    a, b, same = CONTENTS[0]
    __vp_assert(__vp_same(a, path) != __vp_same(b, path), "compared", "other files are compared than the input and the output", a, b)
    if same:
        __vp_assert(status == 0, "status", "the status of an unchanged file is not 0", status)
        __vp_assert(len(FS.moves) == 0, "replaced", "a file that is standard already is replaced")
        __vp_reach("same")
    else:
        __vp_assert(status == 2, "status", "the status of a changed file is not 2", status)
        __vp_assert(len(FS.moves) == 1, "replaced", "the file is not replaced by the standardised contents")
        __vp_reach("changed")
