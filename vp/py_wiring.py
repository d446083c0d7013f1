# -*- coding: utf-8 -*-
"""What the Python readers hand to the C parser and give back, for P01 to P05."""
OWN = {"P01": ("data", "characters", "rows"), "P02": ("quoted",), "P03": ("rows",), "P04": ("strict",), "P05": ("limit",)}


def check_parser(rep, pid):
    from . import check_py
    if rep.violations:
        return
    try:
        check_py.run(rep, *[("P01wire", dict(ENTRY=e)) for e in ("string", "data", "reader")], expect=("string", "data", "reader"), only=OWN[pid])
    except check_py.pyprog.Anchor as e:
        rep.assumptions.append("the Python side was not decided here (%s); what reaches the parser is decided by P12, P18 and P25" % e)
        return
    rep.rules.append("every reader and parsing helper hands the parser its source, the characters, the limit and the modes it was asked for, and gives back the records of the parser unchanged (abstract interpretation of the Python code)")
