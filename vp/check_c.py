# -*- coding: utf-8 -*-
"""Decides P06, P07 and P08: memory, ownership and failure handling of the C
extensions, by relational abstract interpretation of their LLVM IR from every
entry point the interpreter can call."""
import glob
import os
import time
from multiprocessing import Pool

from . import core, llir, cz
from . import cworld_mem as C

RULES = {"P06": C.MEM, "P07": C.REF, "P08": C.ERR}
TEXT = {
    "P06": "Every buffer access, string access, copy and free of the C extensions is checked for being inside live memory, with lengths and capacities as unbounded integers related by difference bounds and linear equalities.",
    "P07": "Every reference operation of the C extensions is tracked per object; at each return the references owned equal those held by the parser, the module and the result, and every buffer is freed or held by the parser.",
    "P08": "Every interpreter call and allocation succeeds or fails on each path; at each return a missing result goes with a pending exception, and a result with none and without an allocation that failed; no missing object is passed on.",
}


def units():
    r = []
    for p in sorted(glob.glob(os.path.join(core.REPO, "src", "*.c"))):
        mod = llir.compile_unit(p)
        t = C.driver_tables(mod)
        if t["init"]:
            r.append((p, t))
    if not r:
        raise core.Anchor("no extension module in src/")
    return r


def drivers(t):
    out = []
    for n, f in t["methods"]:
        out.append(("life" if t.get("tp_iternext") else "func", f))
    for f in t["init"]:
        out.append(("init", f))
    return out


def make(kind, f):
    return {"life": C.LifeDriver, "func": C.FuncDriver, "init": C.InitDriver}[kind](f)


def job(a):
    path, kind, f, limit = a
    mod = llir.compile_unit(path)
    d = make(kind, f)
    w = C.MemWorld(mod, d)
    it = cz.ZInterp(mod, w)
    it.DEADLINE = time.time() + limit
    try:
        it.explore(d.init(w, it))
    except cz.Unsupported as e:
        where = "%s line %s" % (e.ins.fn.srcname, e.ins.line) if e.ins is not None else "?"
        return dict(err="%s: %s (%s)" % (f, e, where), viol=viol(it))
    except cz.Anchor as e:
        return dict(err="%s: %s" % (f, e), viol=[])
    return dict(err=None, viol=viol(it), counts=w.counts, funcs=sorted(w.funcs), states=it.states, steps=it.steps,
                terminals=it.terminals, calls=sorted({"%s -> %s" % (x, y) for x, y, _ in it.calls_seen}),
                all=sorted(n for n in mod.functions))


def viol(it):
    r = []
    for v in it.violations:
        st = getattr(v, "stack", None) or []
        if v.ins is not None and getattr(v.ins, "fn", None) is not None:
            here = (v.ins.fn.srcname, v.ins.line)
        else:
            here = st[-1] if st else ("?", 0)
        r.append(dict(rule=v.rule, msg=v.msg, fn=here[0], line=here[1], stack=st, trace=v.trace))
    return r


def run(pid, rep):
    rules = RULES[pid]
    rep.rules = list(rules)
    rep.explain.append(TEXT[pid])
    jobs = []
    for p, t in units():
        for kind, f in drivers(t):
            jobs.append((p, kind, f, 780))
    jobs.sort(key=lambda j: j[1] != "life")
    with Pool(min(core.NPROC, len(jobs))) as pool:
        res = pool.map(job, jobs, 1)
    errs = []
    for (p, kind, f, _), r in zip(jobs, res):
        mine = [v for v in r["viol"] if v["rule"] in rules]
        unit = os.path.relpath(p, core.REPO)
        for v in mine:
            path = " -> ".join("%s:%s" % x for x in v["stack"]) or "%s:%s" % (v["fn"], v["line"])
            rep.violation("%s:%s:%s" % (v["rule"], v["fn"], v["msg"]), "%s:%s (%s)" % (unit, v["line"], v["fn"]), v["msg"],
                          "entry point %s; call path %s\ndecisions on the path: %s" % (f, path, "; ".join(v["trace"] or [])))
        if r["err"]:
            errs.append("%s %s" % (unit, r["err"]))
            continue
        rep.count("entry points")
        rep.count("abstract states", r["states"])
        rep.count("instructions interpreted", r["steps"])
        for k, n in r["counts"].items():
            rep.count(k, n)
        rep.counts.setdefault("functions analysed", [])
        rep.counts["functions analysed"] = sorted(set(rep.counts["functions analysed"]) | set("%s:%s" % (unit, x) for x in r["funcs"]))
        rep.counts.setdefault("call sites analysed", 0)
        rep.counts["call sites analysed"] += len(r["calls"])
        rep.obligations += sum(r["counts"].values())
        rep.discharged += sum(r["counts"].values()) - len(mine)
        rep.sample("%s %s (%s): %d abstract states, %d exits" % (unit, f, kind, r["states"], r["terminals"]))
        unreached = sorted(set(r["all"]) - set(r["funcs"]))
        rep.counts.setdefault("_seen", {}).setdefault(unit, set(r["all"])).intersection_update(unreached)
    for unit, left in rep.counts.pop("_seen", {}).items():
        rep.count("functions not reached from an entry point", len(left))
    if errs and not rep.violations:
        raise core.Anchor("; ".join(errs))
    rep.assumptions += [
        "clang's lowering of the C source is right",
        "the interpreter calls behave as modelled in vp/cworld_mem.py: each may fail with an exception set where its documentation says so",
        "machine integers do not overflow: buffer sizes stay below 2^62",
        "a line iterator may run arbitrary code, including iteration of the parser it feeds, once per step",
    ]


def p06(rep):
    run("P06", rep)


def p07(rep):
    run("P07", rep)


def p08(rep):
    run("P08", rep)


# ---------------------------------------------------------------- abstraction
def find(fname):
    for p, t in units():
        for n, f in t["methods"]:
            if n == fname:
                return p, f
    raise core.Anchor("no extension module has a function %s" % fname)


def abs_job(a):
    path, f, limit = a
    from . import cworld_abs as A
    mod = llir.compile_unit(path)
    d = A.AbsDriver(f)
    w = A.AbsWorld(mod, d)
    it = cz.ZInterp(mod, w)
    it.DEADLINE = time.time() + limit
    err = None
    try:
        it.explore(d.init(w, it))
    except cz.Unsupported as e:
        err = "%s: %s (line %s)" % (f, e, e.ins.line if e.ins is not None else "?")
    return dict(err=err, viol=viol(it), counts=w.counts, states=it.states, steps=it.steps, terminals=it.terminals, funcs=sorted(w.funcs))


def merge_job(a):
    path, f, n, prefix = a
    from . import cworld_abs as A
    mod = llir.compile_unit(path)
    d = A.AbsDriver(f)
    w = A.MergeWorld(mod, d, n, prefix)
    it = A.PathInterp(mod, w)
    err = None
    try:
        it.explore(d.init(w, it))
    except cz.Unsupported as e:
        err = "%s: %s (line %s)" % (f, e, e.ins.line if e.ins is not None else "?")
    return dict(err=err, viol=viol(it), counts=w.counts, states=it.states, steps=it.steps, terminals=it.terminals, funcs=sorted(w.funcs))


def report(rep, path, f, results):
    errs, seen = [], set()
    unit = os.path.relpath(path, core.REPO)
    for r in sorted(results, key=lambda r: min([len(v["msg"]) for v in r["viol"]] or [0])):
        for v in sorted(r["viol"], key=lambda v: len(v["msg"])):
            key = (v["fn"], v["line"], v["msg"])
            if key in seen or len(seen) > 20:
                continue
            seen.add(key)
            way = " -> ".join("%s:%s" % x for x in v["stack"]) or "%s:%s" % (v["fn"], v["line"])
            rep.violation("%s:%s" % (v["fn"], v["msg"]), "%s:%s (%s)" % (unit, v["line"], v["fn"]), v["msg"],
                          "entry point %s; call path %s\ndecisions on the path: %s" % (f, way, "; ".join((v["trace"] or [])[-80:])))
        if r["err"]:
            errs.append(r["err"])
            continue
        rep.count("abstract states", r["states"])
        rep.count("instructions interpreted", r["steps"])
        rep.count("exits", r["terminals"])
        for k, n in r["counts"].items():
            rep.count(k, n)
        rep.counts["functions analysed"] = sorted(set(rep.counts.get("functions analysed", [])) | set("%s:%s" % (unit, x) for x in r["funcs"]))
        rep.obligations += sum(r["counts"].values())
        rep.discharged += sum(r["counts"].values())
    if errs and not rep.violations:
        raise core.Anchor("; ".join(sorted(set(errs))[:3]))
    rep.assumptions += ["clang's lowering of the C source is right", "allocation is assumed to succeed (failures are decided by P08)",
                        "the interpreter calls behave as modelled in vp/cworld_mem.py"]


def p09(rep):
    rep.rules = ["each symbol the code appends is the next one of the reference transducer", "the result is made of exactly the appended symbols, after the whole text was read and with no symbol outstanding"]
    rep.explain.append("The loop is run to a fixpoint over the classes delimiter, quote, escape, CR, LF, NUL and any other character, with every present/absent combination of the three dialect characters; the reference transducer runs in step, and buffer positions are related by difference bounds, so texts of every length and any number of buffer growths are covered.")
    path, f = find("base_abstraction")
    r = abs_job((path, f, 700))
    report(rep, path, f, [r])
    rep.sample("%s: %d abstract states over all texts" % (f, r["states"]))
    rep.assumptions.append("the dialect characters differ from each other and from CR, LF and NUL; NUL itself is one of the text characters")


def p10(rep):
    rep.rules = ["the result equals the definition: each closed block replaced by cell symbols, everything else kept, same length"]
    rep.explain.append("Every path of the function is followed for every string over quote and other symbols of each length up to the bound, and for strings that begin with 1 to 70 closed blocks of three shapes followed by free symbols; which other symbol stands at a place is left open.")
    path, f = find("c_merge_with_quotechar")
    top = 20 if rep.tier == "thorough" else 16
    T, F = True, False
    jobs = []
    for n in range(0, top + 1):
        k = max(0, n - 11)
        for b in range(2 ** k):
            jobs.append((path, f, n, tuple(bool(b >> i & 1) for i in range(k))))
    free = 7 if rep.tier == "thorough" else 5
    for shape in ((T, T, F), (T, F, T, F), (T, F, T, T, T, T)):
        for k in list(range(1, 36)) + [63, 64, 65, 127, 128, 129, 255, 256, 257]:
            jobs.append((path, f, len(shape) * k + free, shape * k))
    jobs.sort(key=lambda j: -(2 ** (j[2] - len(j[3]))) * j[2])
    with Pool(core.NPROC) as pool:
        res = pool.map(merge_job, jobs, 2)
    report(rep, path, f, res)
    rep.counts["longest length with every string followed"] = top
    rep.counts["strings given by a prefix of closed blocks"] = 3 * 44 * 2 ** free
    rep.sample("%s: %d exits compared" % (f, rep.counts.get("exits", 0)))
