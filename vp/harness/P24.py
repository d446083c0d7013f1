# P24: which texts are recognised, as a combination of facts about the text
# parameters: WHAT (method), STRIP
from clevercsv.detect_type import TypeDetector

cell = __vp_sym("cell", "str")
detector = TypeDetector() if STRIP is None else TypeDetector(strip_whitespace=STRIP)
if WHAT == "is_date":
    answer = detector.is_date(cell)
elif WHAT == "is_time":
    answer = detector.is_time(cell)
else:
    answer = detector.is_number(cell)
__vp_record(bool(answer))
__vp_reach("decided")
