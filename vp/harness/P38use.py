# use: files cli
# P38: optional packages are obtained through the version-checked import where they are used
# parameters: ENTRY, REAL_ENCODING
FAULTY = False
NLINES = 2
path = __vp_sym("filename", "str")
__vp_assume(path != "")
FOUND = SimpleDialect(char("delimiter"), "", "", strict=False)
ASKED = []
answer = __vp_pick("package", "available", "missing", "too old")


class Detector_:
    def __init__(self):
        self.done = False
        self.result = {"encoding": "utf-8"}

    def feed(self, chunk):
        pass

    def close(self):
        pass


class Fast:
    UniversalDetector = Detector_


__vp_stub("chardet.UniversalDetector", Detector_)


def checked_import(name, raise_on_missing=True):
    ASKED.append(name)
    if name != WANTED:
        __vp_checked(name)
        return FakePandas
    if answer == "missing":
        if raise_on_missing:
            raise ImportError("missing")
        return None
    if answer == "too old":
        raise ImportError("too old")
    __vp_checked(name)
    return Fast if name == "cchardet" else FakePandas


__vp_patch("clevercsv._optional:import_optional_dependency", checked_import)
error = None
ok = None
try:
    if ENTRY == "read_dataframe":
        WANTED = "pandas"
        ok = clevercsv.read_dataframe(path, encoding="utf-8")
    elif ENTRY == "get_encoding":
        WANTED = "cchardet"
        ok = clevercsv.encoding.get_encoding(path)
    elif ENTRY == "without fast":
        WANTED = "cchardet"
        ok = clevercsv.encoding.get_encoding(path, try_cchardet=False)
    elif ENTRY == "read_table":
        WANTED = "cchardet"
        ok = clevercsv.read_table(path)
    elif ENTRY == "view":
        WANTED = "tabview"
        ok = run_command("view", [path], {"--encoding": ["utf-8"]}) == 0
    else:
        WANTED = "wilderness"
        ok = run_command("detect", [path], {"--encoding": ["utf-8"]}) == 0
except ImportError as e:
    error = e
if ENTRY == "without fast":
    __vp_assert(error is None and len(ASKED) == 0, "disabled", "the faster detector is asked for although it is disabled")
    __vp_reach(ENTRY)
elif ENTRY in ("get_encoding", "read_table"):
    if answer == "too old":
        __vp_assert(error is not None, "too old", "a package that is too old is used")
    else:
        __vp_assert(error is None and ok is not None, "fallback", "encoding detection needs the optional package")
        __vp_assert(WANTED in ASKED, "asked", "the optional package is not looked for")
    __vp_reach(ENTRY)
elif answer == "available":
    __vp_assert(error is None and ok, "available", "the feature does not work although the package is available")
    __vp_assert(WANTED in ASKED, "asked", "the package is used without the version-checked import")
    __vp_reach(ENTRY)
else:
    __vp_assert(error is not None, "missing", "no ImportError is raised although the package is missing or too old")
    __vp_reach(ENTRY + " refused")
