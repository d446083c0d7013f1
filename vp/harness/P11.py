# P11: each row of the source is delivered exactly once, however the reader is consumed

# parameters: N rows, KIND of source
ROWS = [__vp_new("row", "list") for _ in range(N)]
FAIL_AT = __vp_pick("engine error", -1, 1)


class Parser:
    def __init__(self, data, delimiter=None, quotechar=None, escapechar=None, field_limit=None, strict=None, return_quoted=False):
        self.it = iter(data)
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        i = self.n
        self.n = self.n + 1
        if i == FAIL_AT:
            raise EngineError("bad line")
        return next(self.it)


__vp_stub("clevercsv.cparser.Parser", Parser)


def gen():
    for r in ROWS:
        yield r


class OneShot:
    def __init__(self):
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(ROWS):
            raise StopIteration
        self.i = self.i + 1
        return ROWS[self.i - 1]


if KIND == "list":
    src = ROWS
elif KIND == "iterator":
    src = iter(ROWS)
elif KIND == "generator":
    src = gen()
else:
    src = OneShot()

r = clevercsv.reader(src)
got = []
dead = False


def take(row):
    i = len(got)
    got.append(row)
    # the engine consumes nothing when it reports an error
    __vp_assert(i < N, "extra", "a row beyond the end of the source is delivered")
    __vp_assert(row is ROWS[i], "order", "a row is lost, repeated or out of order when the reader is consumed in several steps")
    __vp_assert(r.line_num == len(got), "line_num", "line_num is not the number of rows delivered so far")


def step(op):
    if op == "next":
        try:
            take(next(r))
        except StopIteration:
            __vp_reach("end")
            __vp_assert(len(got) == N, "lost", "the reader ends before every row was delivered")
    elif op == "for-break":
        for row in r:
            take(row)
            break
        else:
            __vp_assert(len(got) == N, "lost", "the reader ends before every row was delivered")
    elif op == "for":
        for row in r:
            take(row)
        __vp_assert(len(got) == N, "lost", "the reader ends before every row was delivered")
        __vp_reach("whole")
    elif op == "iter":
        it = iter(r)
        try:
            take(next(it))
        except StopIteration:
            __vp_assert(len(got) == N, "lost", "the reader ends before every row was delivered")
    else:
        for row in list(r):
            got.append(row)
            __vp_assert(len(got) <= N and row is ROWS[len(got) - 1], "order", "a row is lost, repeated or out of order when the reader is converted to a list")
        __vp_assert(len(got) == N, "lost", "the list misses rows")
        __vp_assert(r.line_num == N, "line_num", "line_num is not the number of rows delivered so far")


for k in range(3):
    try:
        step(__vp_pick("use of the reader", "next", "for-break", "for", "iter", "list"))
    except clevercsv.Error:
        __vp_assert(FAIL_AT >= 0, "error", "an error appears although the engine reported none")
        __vp_reach("error")
        __vp_assert(r.line_num >= len(got), "line_num", "line_num forgets rows delivered before an error")
        break
