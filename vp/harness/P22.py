# P22: type detection gives a known type or None and never raises
# parameters: STRIP, QUOTED, NAMES (the tests)
from clevercsv.detect_type import TypeDetector

cell = __vp_sym("cell", "str")


def outcome(name):
    def test(self, cell, is_quoted=False):
        return __vp_pick(name, True, False)
    return test


for n in NAMES:
    __vp_patch("clevercsv.detect_type:TypeDetector." + n, outcome(n))
detector = TypeDetector() if STRIP is None else TypeDetector(strip_whitespace=STRIP)
try:
    if QUOTED is None:
        answer = detector.detect_type(cell)
    else:
        answer = detector.detect_type(cell, is_quoted=QUOTED)
except BaseException as e:
    __vp_fail("raises", "type detection raises", type(e).__name__, str(e))
known = detector.list_known_types()
__vp_assert(answer is None or any(answer == k for k in known), "unknown type", "type detection returns something that is no known type", answer)
__vp_reach("none" if answer is None else "known")
try:
    b = detector.is_known_type(cell) if QUOTED is None else detector.is_known_type(cell, is_quoted=QUOTED)
except BaseException as e:
    __vp_fail("raises", "type detection raises", type(e).__name__, str(e))
__vp_assert(b is True or b is False, "answer", "the type test gives no yes or no", b)
