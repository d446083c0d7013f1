# -*- coding: utf-8 -*-
"""A small front end for LLVM IR text as clang 18 writes it at -O0.

compile_unit() runs clang (and opt -passes=mem2reg) on a C file of /repo and
parses the result into Module/Function/Block/Instr objects.  Nothing of /repo
is executed.
"""
import os
import re
import subprocess
import sys
import sysconfig
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


class IRError(Exception):
    pass


# ------------------------------------------------------------------ types
class T:
    __slots__ = ("kind", "bits", "elem", "n", "fields", "name", "size", "align", "offsets")

    def __init__(self, kind, bits=0, elem=None, n=0, fields=None, name=None):
        self.kind, self.bits, self.elem, self.n, self.fields, self.name = kind, bits, elem, n, fields, name
        self.size = None

    def __repr__(self):
        if self.kind == "int":
            return "i%d" % self.bits
        if self.kind == "array":
            return "[%d x %r]" % (self.n, self.elem)
        if self.kind == "struct":
            return self.name or "{%s}" % ",".join(map(repr, self.fields))
        return self.kind


class Operand:
    """kind: local, global, int, null, undef, gep (constant expression), zero, agg, str, meta"""
    __slots__ = ("kind", "v", "ty", "extra")

    def __init__(self, kind, v=None, ty=None, extra=None):
        self.kind, self.v, self.ty, self.extra = kind, v, ty, extra

    def __repr__(self):
        if self.kind == "local":
            return "%" + str(self.v)
        if self.kind == "global":
            return "@" + str(self.v)
        return "%s:%s" % (self.kind, self.v)


class Instr:
    __slots__ = ("op", "dest", "ty", "args", "x", "line", "fn", "block", "idx", "text")

    def __init__(self, op, dest=None, ty=None, args=(), x=None, line=None):
        self.op, self.dest, self.ty, self.args, self.x, self.line = op, dest, ty, list(args), x, line
        self.fn = self.block = self.idx = None

    def __repr__(self):
        return "%s=%s %r %r" % (self.dest, self.op, self.args, self.x)


class Block:
    def __init__(self, name):
        self.name = name
        self.instrs = []
        self.succs = []


class Function:
    def __init__(self, name, ret, params, internal):
        self.name, self.ret, self.params, self.internal = name, ret, params, internal
        self.blocks = {}
        self.entry = None
        self.line = None
        self.srcname = name


class Global:
    def __init__(self, name, ty, init, const, external):
        self.name, self.ty, self.init, self.const, self.external = name, ty, init, const, external


# ------------------------------------------------------------------ parser
TOK = re.compile(r'''\s*(?:
  (?P<str>c"[^"]*")
 |(?P<qstr>"[^"]*")
 |(?P<local>%(?:"[^"]*"|[-\w.$]+))
 |(?P<glob>@(?:"[^"]*"|[-\w.$]+))
 |(?P<meta>![\w.]*)
 |(?P<num>-?\d+\b)
 |(?P<hex>0x[0-9A-Fa-f]+)
 |(?P<word>[A-Za-z_][\w.]*)
 |(?P<attr>\#\d+)
 |(?P<dots>\.\.\.)
 |(?P<p>[(){}\[\]<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise IRError("cannot tokenize: %r" % s[i:i + 60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


ATTRS = {"noundef", "nonnull", "signext", "zeroext", "nocapture", "readonly", "writeonly", "noalias",
         "immarg", "returned", "inreg", "nofree", "inbounds", "nuw", "nsw", "exact", "tail", "musttail", "notail",
         "fastcc", "ccc", "volatile", "nneg", "disjoint", "samesign"}


class P:
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] in ("word", "p", "dots"):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IRError("expected %r at %r" % (v, self.t[self.i:self.i + 6]))

    def attrs(self):
        while True:
            k, v = self.peek()
            if k == "word" and v in ATTRS:
                self.i += 1
            elif k == "word" and v in ("align", "dereferenceable", "dereferenceable_or_null", "captures", "range", "memory", "sret", "byval", "addrspace"):
                self.i += 1
                if self.accept("("):
                    d = 1
                    while d:
                        kk, vv = self.next()
                        d += (vv == "(") - (vv == ")")
                elif self.peek()[0] == "num":
                    self.i += 1
            else:
                return

    def type(self):
        k, v = self.next()
        if k == "word":
            m = re.fullmatch(r"i(\d+)", v)
            if m:
                t = self.m.inttype(int(m.group(1)))
            elif v in ("ptr", "void", "float", "double", "label", "metadata", "x86_fp80", "half", "token"):
                t = self.m.prim(v)
            else:
                raise IRError("type? %r" % v)
        elif k == "local":
            t = self.m.named(v[1:].strip('"'))
        elif v == "[":
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = T("array", elem=e, n=n)
        elif v == "{":
            fs = []
            while not self.accept("}"):
                fs.append(self.type())
                self.accept(",")
            t = T("struct", fields=fs)
        elif v == "<":
            if self.accept("{"):
                fs = []
                while not self.accept("}"):
                    fs.append(self.type())
                    self.accept(",")
                self.expect(">")
                t = T("struct", fields=fs, name=None)
            else:
                n = int(self.next()[1])
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = T("vector", elem=e, n=n)
        else:
            raise IRError("type? %r" % v)
        # function type
        if self.peek()[1] == "(" and self.peek()[0] == "p" and getattr(self, "allow_fn", False):
            pass
        return t

    def value(self, ty):
        k, v = self.next()
        if k == "local":
            return Operand("local", v[1:].strip('"'), ty)
        if k == "glob":
            return Operand("global", v[1:].strip('"'), ty)
        if k == "num":
            return Operand("int", int(v), ty)
        if k == "str":
            return Operand("str", decode(v[2:-1]), ty)
        if k == "hex":
            return Operand("undef", v, ty)
        if k == "word":
            if v == "null":
                return Operand("null", None, ty)
            if v == "true":
                return Operand("int", 1, ty)
            if v == "false":
                return Operand("int", 0, ty)
            if v in ("undef", "poison"):
                return Operand("undef", None, ty)
            if v == "zeroinitializer":
                return Operand("zero", None, ty)
            if v == "none":
                return Operand("undef", None, ty)
            if v == "getelementptr":
                self.attrs()
                self.expect("(")
                ety = self.type()
                self.expect(",")
                args = []
                while True:
                    self.attrs()
                    t2 = self.type()
                    self.attrs()
                    args.append(self.value(t2))
                    if not self.accept(","):
                        break
                self.expect(")")
                return Operand("gep", args, ty, ety)
            if v in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
                self.expect("(")
                t2 = self.type()
                a = self.value(t2)
                self.expect("to")
                t3 = self.type()
                self.expect(")")
                return Operand("cast", [a], t3, v)
            if v in ("add", "sub", "mul", "icmp"):
                self.attrs()
                pred = self.next()[1] if v == "icmp" else None
                self.expect("(")
                t2 = self.type()
                a = self.value(t2)
                self.expect(",")
                t3 = self.type()
                b = self.value(t3)
                self.expect(")")
                return Operand("binop", [a, b], ty, (v, pred))
        if v in ("{", "[", "<"):
            close = {"{": "}", "[": "]", "<": ">"}[v]
            if v == "<" and self.accept("{"):
                close = "}"
            els = []
            while not self.accept(close):
                t2 = self.type()
                els.append(self.value(t2))
                self.accept(",")
            if v == "<" and close == "}":
                self.expect(">")
            return Operand("agg", els, ty)
        if k == "meta":
            return Operand("meta", v, ty)
        raise IRError("value? %r %r" % (k, v))


def decode(s):
    out = bytearray()
    i = 0
    b = s.encode("latin-1", "replace")
    while i < len(b):
        if b[i] == 0x5C and i + 2 < len(b) + 0 and re.match(rb"[0-9A-Fa-f]{2}", b[i + 1:i + 3]):
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


class Module:
    def __init__(self):
        self.types = {}
        self.ints = {}
        self.prims = {}
        self.globals = {}
        self.functions = {}
        self.declared = set()
        self.md = {}
        self.source = None

    def inttype(self, b):
        if b not in self.ints:
            self.ints[b] = T("int", bits=b)
        return self.ints[b]

    def prim(self, k):
        if k not in self.prims:
            self.prims[k] = T(k)
        return self.prims[k]

    def named(self, n):
        if n not in self.types:
            self.types[n] = T("struct", fields=None, name=n)
        return self.types[n]

    # --- layout
    def sizeof(self, t):
        self.layout(t)
        return t.size

    def alignof(self, t):
        self.layout(t)
        return t.align

    def layout(self, t):
        if t.size is not None:
            return
        if t.kind == "int":
            b = max(1, (t.bits + 7) // 8)
            s = 1
            while s < b:
                s *= 2
            t.size, t.align = s, s
        elif t.kind == "ptr":
            t.size = t.align = 8
        elif t.kind == "double":
            t.size = t.align = 8
        elif t.kind == "float":
            t.size = t.align = 4
        elif t.kind == "x86_fp80":
            t.size = t.align = 16
        elif t.kind in ("array", "vector"):
            self.layout(t.elem)
            t.size, t.align = t.elem.size * t.n, t.elem.align
        elif t.kind == "struct":
            off, al, offs = 0, 1, []
            for f in t.fields or []:
                self.layout(f)
                off = (off + f.align - 1) // f.align * f.align
                offs.append(off)
                off += f.size
                al = max(al, f.align)
            t.offsets = offs
            t.size, t.align = (off + al - 1) // al * al, al
        else:
            t.size = t.align = 1


DEST = re.compile(r'^(%(?:"[^"]*"|[-\w.$]+)) = (.*)$')


def parse_module(text):
    mod = Module()
    lines = text.split("\n")
    # metadata: DILocation and DISubprogram lines
    for ln in lines:
        if ln.startswith("!"):
            m = re.match(r"!(\d+) = (?:distinct )?!DILocation\(line: (\d+)", ln)
            if m:
                mod.md[m.group(1)] = int(m.group(2))
                continue
            m = re.match(r'!(\d+) = (?:distinct )?!DISubprogram\(name: "([^"]+)".*?line: (\d+)', ln)
            if m:
                mod.md["S" + m.group(1)] = (m.group(2), int(m.group(3)))
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] in ";!" or ln.startswith(("source_filename", "target", "attributes", "declare")):
            if ln.startswith("declare"):
                m = re.search(r"@([-\w.$]+)\(", ln)
                if m:
                    mod.declared.add(m.group(1))
            continue
        if ln.startswith("%"):
            m = re.match(r'%("?[^"=]*"?) = type (.*)$', ln)
            name = m.group(1).strip('"')
            t = mod.named(name)
            if m.group(2).strip() != "opaque":
                body = m.group(2)
                pt = P(mod, tokenize(body)).type()
                t.fields = pt.fields
            else:
                t.fields = []
            continue
        if ln.startswith("@"):
            m = re.match(r'@("?[^"=]*"?) = (.*)$', ln)
            name = m.group(1).strip('"')
            rest = re.sub(r",? !dbg !\d+", "", m.group(2))
            rest = re.sub(r", align \d+.*$", "", rest)
            mm = re.match(r"(.*?\b)(global|constant)\b(.*)$", rest)
            if not mm:
                continue
            p = P(mod, tokenize(mm.group(3)))
            ty = p.type()
            ext = "external" in mm.group(1)
            init = None
            if not ext and p.i < len(p.t):
                init = p.value(ty)
            mod.globals[name] = Global(name, ty, init, mm.group(2) == "constant", ext)
            continue
        if ln.startswith("define"):
            i = parse_function(mod, lines, i - 1)
            continue
    return mod


def parse_function(mod, lines, i):
    head = lines[i]
    m = re.search(r"@([-\w.$]+|\"[^\"]*\")\(", head)
    name = m.group(1).strip('"')
    internal = " internal " in head.split("@")[0]
    # return type: token before @
    pre = head[:m.start()].split()
    ret = pre[-1]
    # params
    depth = 0
    j = m.end() - 1
    for k in range(j, len(head)):
        if head[k] == "(":
            depth += 1
        elif head[k] == ")":
            depth -= 1
            if depth == 0:
                break
    p = P(mod, tokenize(head[j + 1:k]))
    params = []
    while p.i < len(p.t):
        if p.accept("..."):
            break
        ty = p.type()
        p.attrs()
        kk, vv = p.next()
        params.append((vv[1:].strip('"'), ty))
        p.accept(",")
    fn = Function(name, ret, params, internal)
    mm = re.search(r"!dbg !(\d+)", head)
    if mm and ("S" + mm.group(1)) in mod.md:
        fn.srcname, fn.line = mod.md["S" + mm.group(1)]
    i += 1
    cur = None
    while True:
        ln = lines[i]
        i += 1
        if ln.startswith("}"):
            break
        if not ln.strip() or ln.lstrip().startswith(";"):
            continue
        m = re.match(r'^("[^"]*"|[-\w.$]+):', ln)
        if m:
            cur = Block(m.group(1).strip('"'))
            fn.blocks[cur.name] = cur
            if fn.entry is None:
                fn.entry = cur.name
            continue
        if cur is None:
            cur = Block("entry")
            fn.blocks[cur.name] = cur
            fn.entry = cur.name
        s = ln.strip()
        if s.startswith("switch") and "[" in s and "]" not in s.split("[", 1)[1]:
            while not lines[i].strip().startswith("]"):
                s += " " + lines[i].strip()
                i += 1
            s += " " + lines[i].strip()
            i += 1
        if s.startswith("#dbg_"):
            continue
        ins = parse_instr(mod, s)
        if ins is not None:
            ins.fn = fn
            ins.block = cur
            ins.idx = len(cur.instrs)
            cur.instrs.append(ins)
    mod.functions[name] = fn
    for b in fn.blocks.values():
        t = b.instrs[-1]
        b.succs = list(t.x) if t.op == "br" else ([t.x[0]] + [l for _, l in t.x[1]] if t.op == "switch" else [])
        seen = []
        for s_ in b.succs:
            if s_ not in seen:
                seen.append(s_)
        b.succs = seen
    return i


BINOPS = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"}
CASTS = {"trunc", "zext", "sext", "bitcast", "ptrtoint", "inttoptr", "fptosi", "sitofp", "fptoui", "uitofp", "fpext", "fptrunc"}


def parse_instr(mod, s):
    line = None
    m = re.search(r", !dbg !(\d+)", s)
    if m:
        line = mod.md.get(m.group(1))
        s = s[:m.start()]
    s = re.sub(r", !(?:srcloc|llvm\.loop|prof|range|noundef|annotation) !\d+", "", s)
    dest = None
    m = DEST.match(s)
    if m:
        dest, s = m.group(1)[1:].strip('"'), m.group(2)
    if "@llvm.dbg." in s or "@llvm.lifetime" in s:
        return None
    p = P(mod, tokenize(s))
    p.attrs()
    k, op = p.next()
    ins = Instr(op, dest, line=line)
    ins.text = s
    if op == "ret":
        ty = p.type()
        ins.ty = ty
        if ty.kind != "void":
            ins.args = [p.value(ty)]
    elif op == "br":
        ty = p.type()
        if ty.kind == "label":
            ins.x = [p.value(ty).v]
        else:
            ins.args = [p.value(ty)]
            p.expect(",")
            p.type()
            a = p.value(None).v
            p.expect(",")
            p.type()
            b = p.value(None).v
            ins.x = [a, b]
    elif op == "switch":
        ty = p.type()
        ins.ty = ty
        ins.args = [p.value(ty)]
        p.expect(",")
        p.type()
        d = p.value(None).v
        p.expect("[")
        cases = []
        while not p.accept("]"):
            t2 = p.type()
            v = p.value(t2).v
            p.expect(",")
            p.type()
            cases.append((v, p.value(None).v))
        ins.x = (d, cases)
    elif op == "unreachable":
        pass
    elif op == "alloca":
        ins.ty = p.type()
        if p.accept(","):
            if p.peek()[1] != "align":
                t2 = p.type()
                ins.args = [p.value(t2)]
    elif op == "load":
        p.attrs()
        ins.ty = p.type()
        p.expect(",")
        t2 = p.type()
        ins.args = [p.value(t2)]
    elif op == "store":
        p.attrs()
        ty = p.type()
        ins.ty = ty
        a = p.value(ty)
        p.expect(",")
        t2 = p.type()
        ins.args = [a, p.value(t2)]
    elif op == "getelementptr":
        p.attrs()
        ins.ty = p.type()
        while p.accept(","):
            t2 = p.type()
            ins.args.append(p.value(t2))
    elif op == "icmp":
        p.attrs()
        ins.x = p.next()[1]
        ty = p.type()
        ins.ty = ty
        a = p.value(ty)
        p.expect(",")
        ins.args = [a, p.value(ty)]
    elif op == "fcmp":
        ins.x = p.next()[1]
        ins.args = []
        ins.op = "opaque"
    elif op in BINOPS:
        p.attrs()
        ty = p.type()
        ins.ty = ty
        a = p.value(ty)
        p.expect(",")
        ins.args = [a, p.value(ty)]
    elif op in CASTS:
        p.attrs()
        ty = p.type()
        a = p.value(ty)
        p.expect("to")
        ins.ty = p.type()
        ins.args = [a]
        ins.x = ty
        if op.startswith(("f", "si", "ui")):
            ins.op = "opaque"
    elif op == "select":
        p.attrs()
        ty = p.type()
        c = p.value(ty)
        p.expect(",")
        t2 = p.type()
        a = p.value(t2)
        p.expect(",")
        t3 = p.type()
        ins.ty = t2
        ins.args = [c, a, p.value(t3)]
    elif op == "freeze":
        ty = p.type()
        ins.ty = ty
        ins.args = [p.value(ty)]
    elif op == "phi":
        ty = p.type()
        ins.ty = ty
        inc = []
        while True:
            p.expect("[")
            v = p.value(ty)
            p.expect(",")
            b = p.value(None).v
            p.expect("]")
            inc.append((v, b))
            if not p.accept(","):
                break
        ins.x = inc
    elif op == "call":
        p.attrs()
        ty = p.type()
        ins.ty = ty
        if p.peek()[1] == "(":  # function type
            d = 0
            while True:
                kk, vv = p.next()
                d += (vv == "(") - (vv == ")")
                if d == 0:
                    break
        callee = p.value(None)
        p.expect("(")
        while not p.accept(")"):
            t2 = p.type()
            p.attrs()
            ins.args.append(p.value(t2))
            p.accept(",")
        ins.x = callee
    elif op in ("extractvalue", "insertvalue", "fadd", "fsub", "fmul", "fdiv", "fneg", "va_arg", "atomicrmw", "cmpxchg", "fence", "extractelement", "insertelement", "shufflevector"):
        ins.op = "opaque"
        ins.x = op
    else:
        raise IRError("instruction? %r" % s)
    return ins


# ------------------------------------------------------------------ driver
def python_include():
    cands = []
    for py in ("/opt/venv/bin/python",):
        if os.path.exists(py):
            try:
                out = subprocess.run([py, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"],
                                     capture_output=True, text=True, timeout=60)
                if out.returncode == 0:
                    cands.append(out.stdout.strip())
            except OSError:
                pass
    cands.append(sysconfig.get_paths()["include"])
    cands.append("/usr/include/python3.12")
    for c in cands:
        if c and os.path.exists(os.path.join(c, "Python.h")):
            return c
    raise IRError("no Python.h found")


def compile_unit(path, shim=True):
    """C file -> Module"""
    inc = python_include()
    with tempfile.TemporaryDirectory(prefix="vpir_") as d:
        a = os.path.join(d, "a.ll")
        b = os.path.join(d, "b.ll")
        cmd = ["clang", "-O0", "-g", "-DNDEBUG", "-S", "-emit-llvm", "-w", "-Xclang", "-disable-O0-optnone",
               "-fno-discard-value-names", "-I", inc]
        if shim:
            cmd += ["-include", os.path.join(HERE, "shim.h")]
        r = subprocess.run(cmd + [path, "-o", a], capture_output=True, text=True)
        if r.returncode != 0:
            raise IRError("clang failed on %s:\n%s" % (path, r.stderr[-2000:]))
        r = subprocess.run([find_opt(), "-S", "-passes=mem2reg,adce", a, "-o", b], capture_output=True, text=True)
        if r.returncode != 0:
            raise IRError("opt failed: " + r.stderr[-2000:])
        mod = parse_module(open(b).read())
    mod.source = path
    return mod


def find_opt():
    for c in ("/usr/lib/llvm-18/bin/opt", "opt-18", "opt"):
        if c.startswith("/"):
            if os.path.exists(c):
                return c
        else:
            from shutil import which
            if which(c):
                return c
    raise IRError("opt (LLVM) not found")


if __name__ == "__main__":
    m = compile_unit(sys.argv[1])
    for f in m.functions.values():
        print(f.name, f.line, len(f.blocks), sum(len(b.instrs) for b in f.blocks.values()))
