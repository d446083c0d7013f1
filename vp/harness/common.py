# models of the surroundings shared by the scenarios
import csv
import _csv
import clevercsv
from clevercsv.cparser import Error as EngineError


class RegisteredDialect(_csv.Dialect):
    """what the csv registry returns"""

    def __init__(self, delimiter, quotechar, escapechar, strict, quoting=csv.QUOTE_MINIMAL, doublequote=True, lineterminator="\r\n", skipinitialspace=False):
        self.delimiter = delimiter
        self.quotechar = quotechar
        self.escapechar = escapechar
        self.strict = strict
        self.quoting = quoting
        self.doublequote = doublequote
        self.lineterminator = lineterminator
        self.skipinitialspace = skipinitialspace


REGISTRY = {
    "excel": RegisteredDialect(",", '"', None, False),
    "excel-tab": RegisteredDialect("\t", '"', None, False),
    "unix": RegisteredDialect(",", '"', None, False, csv.QUOTE_ALL, True, "\n"),
}


def _get_dialect(name):
    for k in REGISTRY:
        if k == name:
            return REGISTRY[k]
    raise csv.Error("unknown dialect")


__vp_stub("csv.get_dialect", _get_dialect)
# ------------------------------------------------------------------ scenario
