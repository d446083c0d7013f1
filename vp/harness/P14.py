# P14: comparison, equality and hashing of dialects
# parameters: WHAT
from clevercsv.dialect import SimpleDialect


def make(i):
    k = __vp_pick("delimiter %d" % i, ",", ";", "", "other")
    if k == "other":
        k = __vp_sym("delimiter%d" % i, "str")
        __vp_assume(len(k) == 1 and k != "," and k != ";")
    q = __vp_sym("quotechar%d" % i, "str")
    e = __vp_sym("escapechar%d" % i, "str")
    __vp_assume(len(q) <= 1 and len(e) <= 1)
    return SimpleDialect(k, q, e, strict=__vp_pick("strict %d" % i, False, True)), k, q, e


x, dx, qx, ex = make(1)
y, dy, qy, ey = make(2)


def rank(d):
    return 0 if d == "," else 1 if d == ";" else 2


if WHAT == "pair":
    same = dx == dy and qx == qy and ex == ey and x.strict == y.strict
    eq = x == y
    __vp_assert(eq is True or eq is False, "eq", "equality of two dialects is not a boolean")
    __vp_assert((eq == True) == same, "equality", "two dialects are " + ("equal although a component differs" if eq else "not equal although all components are"))
    __vp_assert((y == x) == eq, "symmetry", "equality is not symmetric")
    __vp_assert((x != y) == (not eq), "ne", "inequality is not the opposite of equality")
    if eq:
        __vp_assert(hash(x) == hash(y), "hash", "equal dialects have different hashes")
        __vp_reach("equal")
    a = x < y
    b = y < x
    __vp_assert(not (a and b), "asymmetric", "each of two dialects is smaller than the other")
    __vp_assert(not (eq and (a or b)), "consistent", "equal dialects are ordered")
    __vp_assert(eq or a or b, "total", "two different dialects are not ordered")
    if rank(dx) < rank(dy):
        __vp_assert(a and not b, "preference", "comma and semicolon do not come first, in this order", dx, dy)
        __vp_reach("preferred")
    __vp_assert((x > y) == (b == True) and (x <= y) == (not b) and (x >= y) == (not a), "derived", "the comparison operators disagree")
    __vp_assert(not (x < x) and x == x and x <= x, "irreflexive", "a dialect is smaller than itself")
    __vp_assert(not (x == None) and not (x == 1) and not (x == "a"), "other", "a dialect equals something else")
    __vp_assert(hash(x) == hash(SimpleDialect(dx, qx, ex, strict=x.strict)), "hash", "the hash depends on more than the components")
else:
    z, dz, qz, ez = make(3)
    if x < y and y < z:
        __vp_assert(x < z, "transitive", "the order of dialects is not transitive")
        __vp_reach("chain")
