# P38: the version-checked import
# parameters: NAME, MINIMUM (declared in the project file), PACKAGE
import importlib
ASKED = []
REL = []


class Module:
    pass


class Version:
    def __init__(self, text):
        self.text = text

    def relation(self, other):
        if self.text is version:
            __vp_assert(other.text == MINIMUM, "minimum", "the version is compared with another minimum than the declared one (%s)" % MINIMUM, other.text)
            return REL[0]
        __vp_assert(self.text == MINIMUM and other.text is version, "minimum", "the version is compared with another minimum than the declared one (%s)" % MINIMUM, self.text)
        return -REL[0]

    def __lt__(self, other):
        return self.relation(other) < 0

    def __gt__(self, other):
        return self.relation(other) > 0

    def __le__(self, other):
        return self.relation(other) <= 0

    def __ge__(self, other):
        return self.relation(other) >= 0

    def __eq__(self, other):
        return self.relation(other) == 0

    def __ne__(self, other):
        return self.relation(other) != 0


def import_module(name, package=None):
    ASKED.append(name)
    __vp_assert(name == NAME, "module", "another module is imported than the one asked for", name)
    if state == "absent":
        raise ImportError("No module named")
    if state == "not found":
        raise ModuleNotFoundError("No module named")
    return module


__vp_stub("importlib.import_module", import_module)
__vp_stub("packaging.version.Version", Version)
__vp_stub("packaging.version.parse", Version)
from clevercsv._optional import import_optional_dependency
state = __vp_pick("package", "absent", "not found", "no version", "older", "equal", "newer")
module = Module()
version = __vp_sym("version", "str")
__vp_assume(version != "")
__vp_assume(version != MINIMUM)
if state not in ("absent", "not found", "no version"):
    module.__version__ = version
REL.append({"older": -1, "equal": 0, "newer": 1}.get(state, 5))
how = __vp_pick("raise_on_missing", "default", "yes", "no", "positional no")
missing = state in ("absent", "not found")
error = None
r = "nothing"
try:
    if how == "default":
        r = import_optional_dependency(NAME)
    elif how == "yes":
        r = import_optional_dependency(NAME, raise_on_missing=True)
    elif how == "no":
        r = import_optional_dependency(NAME, raise_on_missing=False)
    else:
        r = import_optional_dependency(NAME, False)
except ImportError as e:
    error = e
if missing and how in ("no", "positional no"):
    __vp_assert(error is None, "silent", "a missing package raises although nothing should be raised")
    __vp_assert(r is None, "silent", "a missing package does not give None", r)
    __vp_reach("silent")
elif missing:
    __vp_assert(error is not None, "missing", "a missing package raises no ImportError", r)
    __vp_reach("missing")
elif state == "older":
    __vp_assert(error is not None, "older", "a package that is too old is accepted", r)
    __vp_reach("older")
else:
    __vp_assert(error is None, "accepted", "a package that is recent enough is refused")
    __vp_assert(r is module, "accepted", "the module is not returned", r)
    __vp_reach("accepted")
