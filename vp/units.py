# -*- coding: utf-8 -*-
"""Flow-insensitive unit inference over SSA registers and struct fields:
which integers are positions in the input line ('line'), which are positions or
lengths in a character buffer ('buf')."""


def field_key(mod, gep):
    """(struct name, byte offset) for a getelementptr into a named struct"""
    t = gep.ty
    if t is None or t.kind != "struct" or not t.name or len(gep.args) < 3:
        return None
    off = 0
    for k in gep.args[2:]:
        if k.kind != "int":
            return None
        if t.kind == "struct":
            mod.sizeof(t)
            off += t.offsets[k.v]
            t = t.fields[k.v]
        else:
            t = t.elem
            off += k.v * mod.sizeof(t)
    return ("field", gep.ty.name, off)


def infer(mod, seeds_calls):
    """seeds_calls: {callee: [(argument index or 'ret', unit)]}"""
    parent = {}

    def find(x):
        parent.setdefault(x, x)
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x

    def union(a, b):
        if a is None or b is None:
            return
        parent[find(a)] = find(b)

    seeds = []
    fieldrefs = {}   # (fn, reg) -> field key

    def is_int(t):
        return t is not None and t.kind == "int" and t.bits >= 32

    for fn in mod.functions.values():
        for b in fn.blocks.values():
            for i in b.instrs:
                if i.op == "getelementptr":
                    k = field_key(mod, i)
                    if k:
                        fieldrefs[(fn.name, i.dest)] = k

    def node(fn, o):
        return (fn.name, o.v) if o.kind == "local" else None

    for fn in mod.functions.values():
        for b in fn.blocks.values():
            for i in b.instrs:
                d = (fn.name, i.dest) if i.dest else None
                if i.op == "phi" and is_int(i.ty):
                    for v, _ in i.x:
                        union(d, node(fn, v))
                elif i.op in ("add", "sub") and is_int(i.ty):
                    for a in i.args:
                        union(d, node(fn, a))
                elif i.op in ("sext", "zext", "trunc", "freeze") and is_int(i.ty):
                    union(d, node(fn, i.args[0]))
                elif i.op == "select" and is_int(i.ty):
                    union(d, node(fn, i.args[1]))
                    union(d, node(fn, i.args[2]))
                elif i.op == "icmp" and is_int(i.ty):
                    union(node(fn, i.args[0]), node(fn, i.args[1]))
                elif i.op == "load" and is_int(i.ty):
                    p = i.args[0]
                    if p.kind == "local":
                        k = fieldrefs.get((fn.name, p.v))
                        union(d, k or ("cell", fn.name, p.v))
                elif i.op == "store" and is_int(i.ty):
                    p = i.args[1]
                    if p.kind == "local":
                        k = fieldrefs.get((fn.name, p.v))
                        union(node(fn, i.args[0]), k or ("cell", fn.name, p.v))
                elif i.op == "getelementptr":
                    if len(i.args) == 2 and i.ty.kind == "int":
                        n = node(fn, i.args[1])
                        if n:
                            seeds.append((n, "buf"))
                elif i.op == "call" and i.x.kind == "global":
                    name = i.x.v
                    if name in mod.functions:
                        cal = mod.functions[name]
                        for (pn, pt), a in zip(cal.params, i.args):
                            if is_int(pt):
                                union((name, pn), node(fn, a))
                            elif a.kind == "local":
                                # pointer to a local cell or to a field
                                k = fieldrefs.get((fn.name, a.v), ("cell", fn.name, a.v))
                                union(("cell", name, pn), k)
                        if d and is_int(i.ty):
                            union(d, ("ret", name))
                    for pos, unit in seeds_calls.get(name, ()):
                        n = d if pos == "ret" else (node(fn, i.args[pos]) if pos < len(i.args) else None)
                        if n:
                            seeds.append((n, unit))
                elif i.op == "ret" and i.args and is_int(i.ty):
                    union(("ret", fn.name), node(fn, i.args[0]))
    units = {}
    for n, u in seeds:
        units.setdefault(find(n), set()).add(u)

    def unit_of(x):
        s = units.get(find(x)) if x in parent else None
        if not s:
            return None
        return next(iter(s)) if len(s) == 1 else "mixed"

    regs = {}
    fields = {}
    mixed = False
    for x in list(parent):
        u = unit_of(x)
        if u is None:
            continue
        if u == "mixed":
            mixed = True
            continue
        if x[0] == "field":
            fields[(x[1], x[2])] = u
        elif x[0] not in ("cell", "ret"):
            regs[x] = u
    # cells of local variables that were not promoted
    cells = {x[1:]: unit_of(x) for x in parent if x[0] == "cell" and unit_of(x) in ("line", "buf")}
    return dict(regs=regs, fields=fields, cells=cells, mixed=mixed)


def self_feeding(fn, refs, load):
    """does the loaded value only flow, through arithmetic, into stores to the
    field it was loaded from?"""
    off = refs.get(load.args[0].v) if load.args and load.args[0].kind == "local" else None
    if off is None:
        return False
    work, seen = [load.dest], set()
    users = {}
    for b in fn.blocks.values():
        for i in b.instrs:
            ops = [v for v, _ in i.x] if i.op == "phi" else list(i.args)
            for pos, a in enumerate(ops):
                if a.kind == "local":
                    users.setdefault(a.v, []).append((i, pos))
    while work:
        r = work.pop()
        if r in seen:
            continue
        seen.add(r)
        for i, pos in users.get(r, ()):
            if i.op == "store":
                tgt = i.args[1] if len(i.args) > 1 else None
                if pos == 0 and tgt is not None and tgt.kind == "local" and refs.get(tgt.v) == off:
                    continue
                return False
            if i.op in ("add", "sub", "mul", "and", "or", "xor", "shl", "zext", "sext", "trunc", "phi"):
                work.append(i.dest)
                continue
            return False
    return True


def loaded_offsets(mod):
    """byte offsets of struct fields that are read, or whose address is used
    for anything other than a plain store, by some function"""
    out = set()
    for fn in mod.functions.values():
        refs = {}
        for b in fn.blocks.values():
            for i in b.instrs:
                if i.op == "getelementptr":
                    k = field_key(mod, i)
                    if k:
                        refs[i.dest] = k[2]
        for b in fn.blocks.values():
            for i in b.instrs:
                ops = list(i.args)
                if i.op == "store":
                    ops = ops[:1]
                if i.op == "phi":
                    ops = [v for v, _ in i.x]
                if i.op == "load" and self_feeding(fn, refs, i):
                    continue
                for a in ops:
                    if a.kind == "local" and a.v in refs:
                        out.add(refs[a.v])
    return out
