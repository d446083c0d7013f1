# P33: an unknown dialect name surfaces as the package's Error with the original message
MSG = __vp_sym("message", "str")


def get_dialect(name):
    raise csv.Error(MSG)


__vp_stub("csv.get_dialect", get_dialect)
caught = None
ENTRY = __vp_pick("entry", "reader", "writer", "DictReader", "DictWriter")
try:
    if ENTRY == "reader":
        clevercsv.reader(["x"], "nonsense")
    elif ENTRY == "writer":
        clevercsv.writer(["x"], "nonsense")
    elif ENTRY == "DictReader":
        clevercsv.DictReader(["x"], dialect="nonsense")
    else:
        clevercsv.DictWriter(["x"], ["a"], dialect="nonsense")
except clevercsv.Error as e:
    caught = e
__vp_assert(caught is not None, "swallowed", "an unknown dialect name is accepted")
__vp_assert(len(caught.args) == 1 and __vp_same(caught.args[0], MSG), "message", "the message about an unknown dialect name is lost", caught.args)
__vp_reach("name " + ENTRY)
