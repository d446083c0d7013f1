# P35: any other extras action is refused
a = __vp_sym("action", "str")
b = a.lower()
__vp_assume(b != "raise" and b != "ignore")
refused = False
try:
    clevercsv.DictWriter(["x"], ["a"], extrasaction=a)
except ValueError:
    refused = True
__vp_assert(refused, "action", "an unknown extras action is accepted")
__vp_reach("action")
