# ------------------------------------------------- a modelled file system
# each scenario sets: FAULTY (one step may fail), NLINES (lines of every input file)
try:
    REAL_ENCODING
except NameError:
    REAL_ENCODING = False
import os
import shutil
import sys
import tempfile
from clevercsv.dialect import SimpleDialect


class Boom(Exception):
    pass


class FS:
    """what happened to the surroundings"""
    opened = []          # every file object the package opened
    failed = []          # the failure that was injected
    detections = []      # (sample, delimiters, verbose, method, skip)
    engines = []         # arguments given to the parsing engine
    writers = []         # engine writers
    encodings = []       # paths whose encoding was detected
    temps = []           # names of temporary files that exist
    moves = []           # (from, to)
    out = []             # what was printed to standard output
    err = []             # what was printed to standard error
    events = []
    descriptors = []     # descriptors of temporary files: still open?


def step(what):
    if FAULTY and not FS.failed:
        if __vp_pick("fails: " + what, False, True):
            e = Boom(what)
            FS.failed.append(e)
            raise e


def full_text(path):
    return text_of("text of", path)


def text_of(name, path):
    for p, t in TEXTS:
        if __vp_same(p, path):
            return t
    t = __vp_new("text of a file", "str")
    __vp_assume(t != "")
    TEXTS.append((path, t))
    return t


TEXTS = []
LINES = []


def lines_of(path):
    for p, ls in LINES:
        if __vp_same(p, path):
            return ls
    ls = [Line(path, i) for i in range(NLINES)]
    LINES.append((path, ls))
    return ls


WIDTHS = None


class Line:
    def __init__(self, path, i):
        self.path = path
        self.i = i
        n = WIDTHS[i] if WIDTHS is not None else 2
        self.row = [__vp_new("cell %d.%d" % (i, j), "str") for j in range(n)]


class Written:
    """what is left on disk of a file that was written"""

    def __init__(self):
        self.parts = []
        self.closed = False


class Chunk:
    def __init__(self, path, content, i, size):
        self.path = path
        self.content = content
        self.i = i
        # the last block of a file is a short one
        self.size = size if i < NCHUNKS - 1 else 1

    def __len__(self):
        return self.size


NCHUNKS = 2
DISK = []                # (path, Written)


def on_disk(path):
    for p, w in DISK:
        if __vp_same(p, path):
            return w
    return None


class File:
    def __init__(self, path, mode, encoding, newline, errors):
        self.path = path
        self.mode = mode
        self.encoding = encoding
        self.newline = newline
        self.errors = errors
        self.closed = False
        self.fresh = True        # positioned at the beginning
        self.at = 0
        self.written = None
        self.name = path
        if "w" in mode or "a" in mode or "x" in mode or "+" in mode:
            self.written = Written()
            if "a" in mode and on_disk(path) is not None:
                self.written.parts = list(on_disk(path).parts)
            DISK.insert(0, (path, self.written))
            FS.events.append(("truncate", path))

    def usable(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def read(self, size=-1):
        self.usable()
        step("read")
        if "b" in self.mode:
            w = on_disk(self.path)
            if w is not None:
                __vp_assert(w.closed, "unflushed", "a file is read back before it was closed", self.path)
            i = self.at
            self.at = self.at + 1
            self.fresh = False
            if i >= NCHUNKS:
                return b""
            return Chunk(self.path, w, i, size)
        t = full_text(self.path)
        if size is not None and __vp_is_const(size) and size == 0:
            return ""
        if not self.fresh:
            return __vp_new("rest of a file", "str")
        self.fresh = False
        if size is None:
            return t
        if __vp_is_const(size) and size == -1:
            return t
        return t[:size]

    def seek(self, pos, whence=0):
        self.usable()
        step("seek")
        if pos == 0 and whence == 0:
            self.fresh = True
            self.at = 0
        else:
            self.fresh = False
            if "b" in self.mode:
                # only a position at a block border is known
                self.at = NCHUNKS if whence == 2 else (self.at + 1 if whence == 1 else 999)
        return pos

    def tell(self):
        return 0 if self.fresh else __vp_new("position", "int")

    def __iter__(self):
        self.usable()
        return self

    def __next__(self):
        self.usable()
        step("read a line")
        __vp_assert(self.fresh, "position", "rows are read although the file is not positioned at its beginning", self.path)
        ls = lines_of(self.path)
        if self.at >= len(ls):
            raise StopIteration
        self.at = self.at + 1
        return ls[self.at - 1]

    def readlines(self):
        return [x for x in self]

    def write(self, s):
        self.usable()
        step("write")
        __vp_assert(self.written is not None, "readonly", "something is written to a file opened for reading")
        self.written.parts.append(s)
        return __vp_new("written", "int")

    def flush(self):
        self.usable()

    def fileno(self):
        return __vp_new("descriptor", "int")

    def close(self):
        if not self.closed:
            self.closed = True
            if self.written is not None:
                self.written.closed = True

    def __enter__(self):
        self.usable()
        return self

    def __exit__(self, a, b, c):
        self.close()


class Text:
    """the value of an in-memory text file"""

    def __init__(self, parts):
        self.parts = parts


class Memory:
    def __init__(self, initial="", newline="\n"):
        self.initial = initial
        self.parts = []
        self.closed = False
        self.newline = newline
        self.at = 0

    def write(self, s):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        step("write")
        self.parts.append(s)
        return __vp_new("written", "int")

    def getvalue(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        return Text(list(self.parts))

    def seek(self, pos, whence=0):
        self.at = 0
        return 0

    def __iter__(self):
        return self

    def __next__(self):
        for p, t in TEXTS:
            if __vp_same(t, self.initial):
                ls = lines_of(p)
                if self.at >= len(ls):
                    raise StopIteration
                self.at = self.at + 1
                return ls[self.at - 1]
        __vp_fail("text", "rows are read from something else than the text of the file", self.initial)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.close()


def open_(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    step("open")
    f = File(file, mode, encoding, newline, errors)
    FS.opened.append(f)
    return f


__vp_stub("open", open_)
__vp_stub("io.open", open_)
__vp_stub("codecs.open", open_)
__vp_stub("io.StringIO", Memory)


# ---- operating system
def mkstemp(suffix=None, prefix=None, dir=None, text=False):
    step("mkstemp")
    name = "/tmp/temporary%d" % len(FS.descriptors)
    FS.temps.append(name)
    FS.descriptors.append(True)
    return (100 + len(FS.descriptors), name)


def os_close(fd):
    FS.descriptors[fd - 101] = False


def exists(path):
    if __vp_is_const(path):
        return path in FS.temps
    return True


def unlink(path):
    FS.events.append(("unlink", path))
    if __vp_is_const(path) and path in FS.temps:
        FS.temps.remove(path)
    else:
        __vp_fail("unlink", "a file that is no temporary file is removed", path)


def move(src, dst, *args, **kw):
    step("move")
    FS.moves.append((src, dst))
    for f in FS.opened:
        if __vp_same(f.path, src):
            __vp_assert(f.closed, "moved while open", "a file is put in place before it was closed", src)
    if __vp_is_const(src) and src in FS.temps:
        FS.temps.remove(src)
    w = on_disk(src)
    DISK.insert(0, (dst, w))
    FS.events.append(("move", src, dst))
    return dst


def fdopen(fd, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
    f = open_("/tmp/temporary%d" % (fd - 101), mode, buffering, encoding, errors, newline)
    FS.descriptors[fd - 101] = False
    return f


class NamedTemporary:
    def __init__(self, mode="w+b", buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None, delete=True):
        fd, name = mkstemp()
        FS.descriptors[fd - 101] = False
        self.file = open_(name, mode, buffering, encoding, None, newline)
        self.name = name
        self.delete = delete

    def write(self, s):
        return self.file.write(s)

    def flush(self):
        pass

    def close(self):
        self.file.close()
        if self.delete and self.name in FS.temps:
            FS.temps.remove(self.name)

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.close()


__vp_stub("tempfile.mkstemp", mkstemp)
__vp_stub("tempfile.NamedTemporaryFile", NamedTemporary)
__vp_stub("os.close", os_close)
__vp_stub("os.fdopen", fdopen)
__vp_stub("os.path.exists", exists)
__vp_stub("os.path.isfile", exists)
__vp_stub("os.unlink", unlink)
__vp_stub("os.remove", unlink)
__vp_stub("os.replace", move)
__vp_stub("os.rename", move)
__vp_stub("shutil.move", move)


# ---- digests: equal exactly for equal contents
class Digest:
    def __init__(self, parts):
        self.parts = parts

    def __eq__(self, other):
        return equal_contents(self.parts, other.parts)

    def __ne__(self, other):
        return not equal_contents(self.parts, other.parts)


CONTENTS = []


def equal_contents(a, b):
    """whether two sequences of blocks are the same bytes"""
    for parts in (a, b):
        __vp_assert(len(parts) == NCHUNKS, "digest", "the comparison does not see every block of a file", len(parts))
        for i in range(len(parts)):
            __vp_assert(parts[i].i == i and parts[i].path == parts[0].path, "digest", "the comparison does not see the blocks of a file in order")
    if __vp_same(a[0].path, b[0].path) and a[0].content is b[0].content:
        return True
    return same_content(a[0].path, b[0].path)


def same_content(a, b):
    for x, y, r in CONTENTS:
        if (__vp_same(x, a) and __vp_same(y, b)) or (__vp_same(x, b) and __vp_same(y, a)):
            return r
    r = __vp_pick("new content is that of the input file", True, False)
    CONTENTS.append((a, b, r))
    return r


class Hasher:
    def __init__(self, data=None, **kw):
        self.parts = []

    def update(self, chunk):
        if len(chunk) > 0:
            self.parts.append(chunk)

    def digest(self):
        return Digest(list(self.parts))

    def hexdigest(self):
        return Digest(list(self.parts))


for _h in ("md5", "sha1", "sha224", "sha256", "sha384", "sha512", "blake2b"):
    __vp_stub("hashlib." + _h, Hasher)


def cmp_files(a, b, shallow=True):
    if shallow:
        return __vp_pick("shallow comparison", True, False)
    return same_content(a, b)


__vp_stub("filecmp.cmp", cmp_files)


# ---- standard streams
def print_(*args, sep=" ", end="\n", file=None, flush=False):
    if file is None or file is sys.stdout:
        step("print")
        FS.out.append(args)
    elif file is sys.stderr:
        FS.err.append(args)
    else:
        file.write(args)


__vp_stub("print", print_)


def stdout_write(s):
    FS.out.append((s,))


def stderr_write(s):
    FS.err.append((s,))


__vp_stub("sys.stdout.write", stdout_write)
__vp_stub("sys.stderr.write", stderr_write)


# ---- detection
FINDS = None             # None: FOUND is found for every sample
FOUND = None             # the dialect detection finds
ENCODING = None          # None: a symbol for each path


def get_encoding(filename, try_cchardet=True):
    step("encoding detection")
    FS.encodings.append(filename)
    return encoding_of(filename)


ENCS = []


def encoding_of(path):
    for p, e in ENCS:
        if __vp_same(p, path):
            return e
    e = __vp_new("encoding of a file", "str")
    __vp_assume(e != "")
    ENCS.append((path, e))
    return e


def detect(self, sample, delimiters=None, verbose=False, method="auto", skip=True):
    step("detection")
    FS.detections.append((sample, delimiters, verbose, method, skip))
    if FINDS is not None:
        return FINDS(sample)
    return FOUND


if not REAL_ENCODING:
    __vp_patch("clevercsv.encoding:get_encoding", get_encoding)
__vp_patch("clevercsv.detect:Detector.detect", detect)


# ---- engines
class Parser:
    def __init__(self, data, delimiter=None, quotechar=None, escapechar=None, field_limit=None, strict=None, return_quoted=False):
        FS.engines.append((data, delimiter, quotechar, escapechar, strict))
        self.it = iter(data)

    def __iter__(self):
        return self

    def __next__(self):
        line = next(self.it)
        step("parsing")
        return list(line.row)


class EngineWriter:
    def __init__(self, csvfile, dialect):
        self.csvfile = csvfile
        self.dialect = dialect
        FS.writers.append(self)

    def writerow(self, row):
        r = list(row)
        step("writing a row")
        self.csvfile.write(Row(r, self.dialect))
        return __vp_new("written", "int")

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)


class Row:
    def __init__(self, cells, dialect):
        self.cells = cells
        self.dialect = dialect


def engine_writer(csvfile, dialect="excel", **kw):
    step("writer")
    return EngineWriter(csvfile, dialect)


__vp_stub("clevercsv.cparser.Parser", Parser)
__vp_stub("csv.writer", engine_writer)


def char(name):
    c = __vp_sym(name, "str")
    __vp_assume(len(c) == 1)
    return c


def all_closed(where):
    for d in FS.descriptors:
        __vp_assert(not d, "closed", "the descriptor of a temporary file is left open " + where)
    for f in FS.opened:
        __vp_assert(f.closed, "closed", "a file is left open " + where, f.path, f.mode)


def same_rows(a, b):
    if len(a) != len(b):
        return False
    for i in range(len(a)):
        if len(a[i]) != len(b[i]):
            return False
        for j in range(len(a[i])):
            if not __vp_same(a[i][j], b[i][j]):
                return False
    return True


# ------------------------------------------------------------------ scenario
