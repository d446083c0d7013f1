# P34: an empty source gives no row and no field names, and no other error
class Parser:
    def __init__(self, data, delimiter=None, quotechar=None, escapechar=None, field_limit=None, strict=None, return_quoted=False):
        pass

    def __iter__(self):
        return self

    def __next__(self):
        raise StopIteration


__vp_stub("clevercsv.cparser.Parser", Parser)
d = clevercsv.DictReader([])
if __vp_pick("ask", True, False):
    __vp_assert(d.fieldnames is None, "empty", "an empty source has field names")
__vp_assert(list(d) == [], "empty", "an empty source has rows")
d.fieldnames = ["a", "b"]
__vp_assert(d.fieldnames == ["a", "b"], "set", "field names that were set are not kept")
__vp_reach("empty")
