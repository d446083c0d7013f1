# P22: one test of the type detection never raises
# parameters: NAME, STRIP, QUOTED
from clevercsv.detect_type import TypeDetector

cell = __vp_sym("cell", "str")
detector = TypeDetector() if STRIP is None else TypeDetector(strip_whitespace=STRIP)
try:
    answer = getattr(detector, NAME)(cell) if QUOTED is None else getattr(detector, NAME)(cell, is_quoted=QUOTED)
except BaseException as e:
    __vp_fail("raises", "a test of the type detection raises: test, exception", NAME, type(e).__name__, str(e))
__vp_assert(answer is True or answer is False or answer is None, "answer", "a test of the type detection gives no yes or no", NAME, answer)
__vp_reach("yes" if answer else "no")
