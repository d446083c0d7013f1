# -*- coding: utf-8 -*-
"""Worlds with extra knowledge for particular scenarios."""
import ast
import json

from . import pymodels as pm
from .pybc import K, NONE, T, Violation
from .pyprog import REGISTRY, World


class CodeWorld(World):
    """knows which texts are Python literals of which value, and reads generated code"""

    def term_type(self, m, st, v):
        if v[0] == "t" and v[1] in ("json.dumps", "pyliteral", "json.ascii"):
            return "str"
        if v[0] == "t" and v[1] == "json.bytes":
            return "bytes"
        return None

    def ext_call(self, m, st, name, args, kw):
        if name == "json.dumps" and args:
            x = m.resolve(st, args[0])
            if m.typ(st, x) == "str":
                ascii_ = kw.get("ensure_ascii", K(True))
                if set(kw) - {"ensure_ascii"} or ascii_[0] != "k":
                    return None
                if x[0] == "k":
                    return K(json.dumps(x[2], ensure_ascii=bool(ascii_[2])))
                return T("json.ascii" if ascii_[2] else "json.dumps", x)
        return super().ext_call(m, st, name, args, kw)

    def str_method(self, m, st, recv, name, args, kw):
        def arg(i, n, default):
            v = args[i] if len(args) > i else kw.get(n, K(default))
            return v[2] if v[0] == "k" else None
        if recv[0] == "t" and recv[1] == "json.dumps" and name == "encode":
            if arg(0, "encoding", "utf-8") in ("utf-8", "utf8", "UTF-8") and arg(1, "errors", "strict") == "backslashreplace":
                return T("json.bytes", recv[2])
        if recv[0] == "t" and recv[1] == "json.bytes" and name == "decode":
            if arg(0, "encoding", "utf-8") in ("utf-8", "utf8", "UTF-8"):
                return T("pyliteral", recv[2])
        return None

    def vp_code(self, m, st, args, kw):
        """the calls in a piece of Python source: (function, positional, keywords) of each"""
        v = m.resolve(st, args[0])
        if v[0] == "t" and v[1] == "concat":
            parts = list(v[2:])
        elif v[0] in ("k", "t"):
            parts = [v]
        else:
            raise Violation("code", "the generated code is no text")
        src, lits = "", []
        for p in parts:
            if p[0] == "k":
                src += p[2]
                continue
            if p[0] == "t" and p[1] in ("pyliteral", "repr") and m.typ(st, p[2]) == "str":
                src += "VPLIT%dx" % len(lits)
                lits.append(p[2])
                continue
            raise Violation("raw", "generated code contains a value that is not embedded as a Python literal: %s" % pm.show(p)[:200])
        try:
            tree = ast.parse(src)
        except SyntaxError as e:
            raise Violation("syntax", "the generated code is not valid Python: %s in %s" % (e.msg, src[:400]))
        names = {"VPLIT%dx" % i: l for i, l in enumerate(lits)}
        used = set()

        def value(e):
            if isinstance(e, ast.Name) and e.id in names:
                used.add(e.id)
                return names[e.id]
            if isinstance(e, ast.Constant):
                return K(e.value)
            return ("tup", (K("code"), K(ast.unparse(e))))
        out = []
        for n in ast.walk(tree):
            if isinstance(n, ast.Call):
                out.append(("tup", (K(ast.unparse(n.func)), ("tup", tuple(value(a) for a in n.args)),
                                    ("tup", tuple(("tup", (K(k.arg or "**"), value(k.value))) for k in n.keywords)))))
        if used != set(names):
            raise Violation("raw", "a value is embedded in generated code where no literal is expected: %s" % src[:400])
        return ("tup", tuple(out))


class OptionalWorld(CodeWorld):
    """optional packages may only be imported after they were checked"""
    needs = None         # module -> optional packages its import needs
    optional = ()
    sites = None         # executed import statements

    def __init__(self):
        super().__init__()
        from . import optional
        self.optional, self.needs, _ = optional.table()
        self.data = set()

    def on_import(self, m, st, fr, name, line):
        need = self.needs.get(name, frozenset()) if name in self.needs else ({name.split(".")[0]} & set(self.optional))
        if not fr.code.module.startswith("clevercsv"):
            return
        self.data.add((fr.code.module, line))
        checked = st.get(REGISTRY).get("checked", {})
        for n in sorted(need):
            if n not in checked:
                raise Violation("unchecked", "%s, which needs the optional package %s, is imported without the version check" % (name, n))

    def vp_checked(self, m, st, args, kw):
        st.upd(REGISTRY, checked=dict(st.get(REGISTRY).get("checked", {}), **{args[0][2]: NONE}))
        return NONE
