# -*- coding: utf-8 -*-
"""Which modules import optional packages, from the syntax trees alone."""
import ast
import os

from .core import REPO, Anchor
from . import pyprog

_T = None


def declared():
    """optional package -> minimum version, from the project file"""
    import tomllib
    with open(os.path.join(REPO, "pyproject.toml"), "rb") as f:
        d = tomllib.load(f)
    out = {}
    for r in d.get("project", {}).get("optional-dependencies", {}).get("full", []):
        n, _, v = r.partition(">=")
        out[n.strip()] = v.strip()
    return out


def entries():
    """the rows (import name, package name, minimum version) of the package's own table"""
    prog = pyprog.program()
    ref = prog.modules.get("clevercsv._optional")
    if ref is None:
        raise Anchor("clevercsv/_optional.py is gone")
    tree = ast.parse(prog.source("clevercsv._optional"))
    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "OptionalDependency":
            vals = [a.value for a in n.args if isinstance(a, ast.Constant)] + [k.value.value for k in n.keywords if isinstance(k.value, ast.Constant)]
            out.append((tuple(vals), n.lineno))
    return out


def type_checking(test):
    return (isinstance(test, ast.Name) and test.id == "TYPE_CHECKING") or (isinstance(test, ast.Attribute) and test.attr == "TYPE_CHECKING")


def imports(prog, mod):
    """(module names, line, enclosing function or None, guarded by except ImportError) of every import statement"""
    path, pkg, rel = prog.files[mod]
    tree = ast.parse(prog.source(mod))
    out = []

    def names(n):
        if isinstance(n, ast.Import):
            return [a.name for a in n.names]
        base = n.module or ""
        if n.level:
            parts = mod.split(".") if pkg else mod.split(".")[:-1]
            parts = parts[:len(parts) - (n.level - 1)]
            base = ".".join(parts + ([n.module] if n.module else []))
        return [base] + [base + "." + a.name for a in n.names]

    def walk(body, fn, guarded):
        for n in body:
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                out.append((names(n), n.lineno, fn, guarded))
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                walk(n.body, n, guarded)
            elif isinstance(n, ast.ClassDef):
                walk(n.body, fn, guarded)
            elif isinstance(n, ast.If):
                if not type_checking(n.test):
                    walk(n.body, fn, guarded)
                walk(n.orelse, fn, guarded)
            elif isinstance(n, ast.Try):
                g = any(h.type is None or any(isinstance(x, ast.Name) and x.id in ("ImportError", "ModuleNotFoundError", "Exception") for x in ast.walk(h.type)) for h in n.handlers)
                walk(n.body, fn, guarded or g)
                for h in n.handlers:
                    walk(h.body, fn, guarded)
                walk(n.orelse, fn, guarded)
                walk(n.finalbody, fn, guarded)
            elif hasattr(n, "body"):
                walk(n.body, fn, guarded)
                walk(getattr(n, "orelse", []), fn, guarded)
    walk(tree.body, None, False)
    return out


def table():
    """(optional import names, module -> optional packages needed to import it, all import statements)"""
    global _T
    if _T is None:
        prog = pyprog.program()
        opt = {e[0][0] for e in entries() if e[0]}
        if not opt:
            raise Anchor("no optional packages are listed")
        stm = {m: imports(prog, m) for m in prog.files}
        direct = {m: set() for m in prog.files}
        deps = {m: set() for m in prog.files}
        for m in prog.files:
            parts = m.split(".")
            for i in range(1, len(parts)):
                deps[m].add(".".join(parts[:i]))
            for names, line, fn, guarded in stm[m]:
                if fn is None:
                    for n in names:
                        if n.split(".")[0] in opt:
                            if not guarded:
                                direct[m].add(n.split(".")[0])
                        elif n in prog.files and not guarded:
                            deps[m].add(n)
        need = {m: set(direct[m]) for m in prog.files}
        changed = True
        while changed:
            changed = False
            for m in need:
                for d in deps[m]:
                    if not need[d] <= need[m]:
                        need[m] |= need[d]
                        changed = True
        _T = (frozenset(opt), {m: frozenset(v) for m, v in need.items()}, stm)
    return _T
