# P39: encoding detection sees the file's bytes in order and finishes the detector
# parameters: NFULL (full blocks before the last one), LAST ("empty", "short"), EARLY (the detector may be done before the end)
from clevercsv.encoding import get_encoding
path = __vp_sym("filename", "str")
OPENED = []
DETECTORS = []
OPTIONAL = []


class Block:
    """a piece of the file: from block number `start`, `n` bytes"""

    def __init__(self, i, n):
        self.i = i
        self.n = n

    def __len__(self):
        return self.n

    def __bool__(self):
        return self.n > 0

    def __eq__(self, other):
        if isinstance(other, Block):
            return self.i == other.i
        return self.n == 0 and other == b""

    def __ne__(self, other):
        return not self.__eq__(other)


class Bytes:
    def __init__(self, path, mode, args):
        self.path = path
        self.mode = mode
        self.at = 0
        self.position = 0
        self.closed = False
        OPENED.append(self)

    def read(self, size=-1):
        __vp_assert(not self.closed, "closed", "the file is read after it was closed")
        i = self.at
        self.at = self.at + 1
        if size is None or size < 0:
            __vp_assert(i == 0 or i == 100, "gap", "the rest of the file is read in one piece after a part of it")
            self.at = 100
            if i == 100:
                return Block(100, 0)
            return Block("all", __vp_new("size", "int"))
        if i < NFULL:
            self.position = self.position + size
            return Block(i, size)
        if i == NFULL and LAST == "short":
            n = __vp_new("length of the last block", "int")
            __vp_assume(n > 0)
            __vp_assume(n < size)
            return Block(i, n)
        return Block(i, 0)

    def tell(self):
        return self.position

    def readinto(self, b):
        __vp_fail("model", "readinto is not modelled")

    def seek(self, pos, whence=0):
        __vp_assert(pos == 0 and whence == 0, "gap", "detection does not start at the beginning of the file", pos)
        self.at = 0

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.close()


def open_(file, mode="r", *args, **kw):
    return Bytes(file, mode, args)


__vp_stub("open", open_)
__vp_stub("io.open", open_)


class Detector:
    def __init__(self):
        self.fed = []
        self.done = False
        self.closed = 0
        self.kind = "slow"
        DETECTORS.append(self)

    def feed(self, data):
        __vp_assert(self.closed == 0, "closed", "bytes are fed to a detector that was finished")
        self.fed.append(data)
        if EARLY and not self.done and len(data) > 0:
            self.done = __vp_pick("the detector is done", False, True)
            if self.done:
                self.done_at = len(self.fed)

    def close(self):
        self.closed = self.closed + 1
        return self.final

    def reset(self):
        self.fed = []
        self.done = False
        self.closed = 0

    @property
    def final(self):
        form = {"encoding": answer, "confidence": 1.0, "language": ""}
        return form

    @property
    def result(self):
        __vp_assert(self.closed == 1, "finish", "the result is taken although the detector was not finished", self.closed)
        return self.final


class FastDetector(Detector):
    def __init__(self):
        Detector.__init__(self)
        self.kind = "fast"


__vp_stub("chardet.UniversalDetector", Detector)
__vp_stub("chardet.universaldetector.UniversalDetector", Detector)


class Fast:
    UniversalDetector = FastDetector


def optional(name, raise_on_missing=True):
    OPTIONAL.append((name, raise_on_missing))
    __vp_assert(name == "cchardet", "optional", "another optional package is asked for", name)
    if available:
        return Fast
    if raise_on_missing:
        raise ImportError("missing")
    return None


__vp_patch("clevercsv._optional:import_optional_dependency", optional)
answer = None if __vp_pick("answer", "some", "none") == "none" else __vp_sym("encoding", "str")
available = __vp_pick("fast detector available", True, False)
how = __vp_pick("try_cchardet", "default", "yes", "no", "positional no")
if how == "default":
    r = get_encoding(path)
elif how == "yes":
    r = get_encoding(path, try_cchardet=True)
elif how == "no":
    r = get_encoding(path, try_cchardet=False)
else:
    r = get_encoding(path, False)
fast = available and how in ("default", "yes")
used = [d for d in DETECTORS if len(d.fed) or d.closed]
__vp_assert(len(used) == 1, "detector", "not exactly one detector is used", len(used))
d = used[0]
__vp_assert(d.kind == ("fast" if fast else "slow"), "choice", "the faster detector is not used exactly when it is available and not disabled", d.kind)
__vp_assert(d.closed == 1, "finish", "the detector is not finished exactly once", d.closed)
__vp_assert(__vp_same(r, answer), "result", "the result is not the encoding the detector found", r)
__vp_assert(len(OPENED) == 1, "opened", "the file is not opened exactly once")
f = OPENED[0]
__vp_assert(__vp_same(f.path, path), "path", "another file is read", f.path)
__vp_assert("b" in f.mode and "r" in f.mode and "+" not in f.mode, "mode", "the file is not opened for reading bytes", f.mode)
__vp_assert(f.closed, "closed", "the file is left open")
data = [b for b in d.fed if len(b) > 0]
if len(data) and data[0].i == "all":
    __vp_assert(len(data) == 1, "gap", "the file is fed more than once")
else:
    for i in range(len(data)):
        __vp_assert(data[i].i == i, "gap", "the bytes of the file are not fed in order and without gaps", i, data[i].i)
    total = NFULL + (1 if LAST == "short" else 0)
    if not d.done:
        __vp_assert(len(data) == total, "early", "detection stops before the end of the file although the detector is not done", len(data))
        __vp_reach("end of file")
    else:
        __vp_reach("done")
__vp_reach("fast" if fast else "slow")
