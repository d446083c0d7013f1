# -*- coding: utf-8 -*-
"""P01-P05: the C parser against the reference transducer."""
import os
import time
import multiprocessing as mp
from . import core, llir
from . import cworld_parse as C
from .cinterp import Unsupported

INF = C.INF
COMBOS = ["DQE", "DQ", "QE", "Q", "DE", "D", "E", ""]
NAMES = {"D": "delimiter", "Q": "quotechar", "E": "escapechar"}
MEMORY = {"null-pointer", "use-after-free", "uninitialised", "construct"}
SHAPE = {"content", "cell", "row", "row-early", "eof", "err-extra", "err-pending"} | MEMORY

_MOD = None


def _run(job):
    cfg, deadline = job
    t = time.time()
    try:
        r = C.run_config(_MOD, cfg, deadline=deadline)
        if r["unsupported"] and time.time() < deadline and cfg.get("bound") is None:
            b = 3
            r2 = None
            while b >= 2:
                r2 = C.run_config(_MOD, dict(cfg, bound=b), deadline=min(deadline, time.time() + 200))
                r2["fallback"] = r["unsupported"]
                r2["bound"] = b
                if not r2["unsupported"]:
                    break
                b -= 1
            r2["violations"] = r2["violations"] + [v for v in r["violations"] if not v["imprecise"]]
            r = r2
    except Unsupported as e:
        r = dict(unsupported=str(e), violations=[], states=0, steps=0, terminals=0, events=0, consumed=0, blocks=[], calls=0)
    except C.Anchor as e:
        return cfg, dict(anchor=str(e)), time.time() - t
    # an imprecise report must be confirmed with exact lengths before it counts
    vs = [v for v in r["violations"] if not v["imprecise"]]
    for v in [v for v in r["violations"] if v["imprecise"]]:
        if any(x["kind"] == v["kind"] for x in vs):
            continue
        for b in (2, 3, 4):
            try:
                rb = C.run_config(_MOD, dict(cfg, bound=b), deadline=min(deadline, time.time() + 150))
            except Unsupported:
                continue
            ok = [x for x in rb["violations"] if x["kind"] == v["kind"] and not x["imprecise"]]
            if ok:
                vs.append(ok[0])
                break
        else:
            r["unsupported"] = r.get("unsupported") or "a report (%s: %s) could not be confirmed with exact lengths" % (v["kind"], v["msg"])
    r["violations"] = vs
    return cfg, r, time.time() - t


def show(cfg):
    c = ", ".join("%s %s" % (NAMES[k], "present" if k in cfg["classes"] else ("None" if cfg.get("none") else "absent")) for k in "DQE")
    return "%s, limit %s, strict %s, quoting information %s" % (
        c, "unlimited" if cfg["limit"] == INF else cfg["limit"], "on" if cfg["strict"] else "off", "on" if cfg["rq"] else "off")


def configs(pid):
    def mk(cl, limit=INF, strict=0, rq=0, **k):
        return dict(classes=cl, limit=limit, strict=strict, rq=rq, **k)
    if pid == "P01":
        return [mk(c) for c in COMBOS] + [mk(c, none=1) for c in ("DQ", "D", "")]
    if pid == "P02":
        return [mk(c, rq=r) for c in COMBOS for r in (0, 1)]
    if pid == "P03":
        return [mk(c) for c in COMBOS] + [mk(c, rq=1) for c in ("DQ", "Q")]
    if pid == "P04":
        return [mk(c, strict=1) for c in COMBOS]
    if pid == "P05":
        return [mk(c, limit=l) for c in COMBOS for l in (0, 1, 2, 3)] + [mk(c) for c in ("DQE", "")]
    raise KeyError(pid)


OWN = {
    "P01": SHAPE,
    "P02": {"strip"} | MEMORY,
    "P03": {"eof", "row-early"} | MEMORY,
    "P04": {"err-strict", "err-extra", "err-class", "err-pending"},
    "P05": {"err-limit", "err-nul", "err-nonstr", "err-newline", "err-class", "err-extra", "err-pending"} | MEMORY,
}
# kinds that count only if the twin configuration does not show them as well
TWIN = {
    "P02": (lambda c: dict(c, rq=0) if c["rq"] else None),
    "P04": (lambda c: dict(c, strict=0)),
    "P05": (lambda c: dict(c, limit=INF) if c["limit"] != INF else None),
}


def check(rep):
    global _MOD
    pid = rep.pid
    path = os.path.join(core.REPO, "src", "cparser.c")
    if not os.path.exists(path):
        raise core.Anchor("src/cparser.c is gone")
    try:
        _MOD = llir.compile_unit(path)
    except llir.IRError as e:
        raise core.Anchor("src/cparser.c cannot be compiled: %s" % e)
    cfgs = configs(pid)
    deadline = time.time() + (420 if rep.tier == "quick" else 700)
    ctx = mp.get_context("fork")
    order = sorted(cfgs, key=lambda c: (-len(c["classes"]), c["limit"] != INF))
    results = []
    with ctx.Pool(core.NPROC) as pool:
        for cfg, r, t in pool.imap_unordered(_run, [(c, deadline) for c in order], chunksize=1):
            results.append((cfg, r, t))
        twins = {}
        for cfg, r, t in results:
            if "anchor" in r:
                raise core.Anchor(r["anchor"])
            if pid in TWIN and any(v["kind"] in SHAPE | {"strip"} for v in r["violations"]):
                tw = TWIN[pid](cfg)
                if tw is not None:
                    twins[repr(sorted(tw.items()))] = tw
        tres = {}
        for cfg, r, t in pool.imap_unordered(_run, [(c, time.time() + 200) for c in twins.values()], chunksize=1):
            tres[repr(sorted(cfg.items()))] = {v["kind"] for v in r["violations"]}
    bad_unsup = []
    for cfg, r, t in results:
        rep.count("configurations")
        rep.count("abstract_states", r["states"])
        rep.count("abstract_steps", r["steps"])
        rep.count("final_states", r["terminals"])
        rep.count("parser_events_compared", r["events"])
        rep.counts["basic_blocks_reached"] = max(rep.counts.get("basic_blocks_reached", 0), len(r["blocks"]))
        own = OWN[pid]
        hit = False
        tk = set()
        if pid in TWIN:
            tw = TWIN[pid](cfg)
            tk = tres.get(repr(sorted(tw.items())), set()) if tw is not None else None
        for v in r["violations"]:
            k = v["kind"]
            if not (k in own or (tk is not None and pid in TWIN and k in SHAPE | {"strip"} and k not in tk)):
                continue
            hit = True
            fn, line = (v["stack"][-1] if v["stack"] else ("?", "?"))
            rep.violation("%s:%s" % (k, fn), "src/cparser.c:%s (in %s)" % (line, fn),
                          v["msg"] + "  [" + show(cfg) + "]",
                          "configuration: %s\ncall path: %s\nabstract path: %s" % (
                              show(cfg), " > ".join("%s:%s" % x for x in v["stack"]), "; ".join(map(str, v["trace"]))))
        rep.obligations += 1
        if not hit:
            rep.discharged += 1
        if r["unsupported"]:
            bad_unsup.append((cfg, r["unsupported"]))
        if r.get("fallback"):
            rep.count("configurations_bounded")
            rep.sample("bounded to inputs of %d stored characters (%s): %s" % (r["bound"], r["fallback"], show(cfg)))
        else:
            rep.sample("%s: fixpoint after %d abstract states" % (show(cfg), r["states"]), 6)
    nb = rep.counts.get("basic_blocks_reached", 0)
    if not rep.violations:
        if bad_unsup:
            raise core.Anchor("%d configuration(s) could not be analysed, first: %s: %s" % (
                len(bad_unsup), show(bad_unsup[0][0]), bad_unsup[0][1]))
        if nb < 60 or rep.counts["parser_events_compared"] < 50:
            raise core.Anchor("only %d basic blocks of the parser were reached" % nb)
    rep.rules.append("every event (cell, end of record, end of data, error) of every abstract path of the parser equals the event of the reference transducer for the same characters")
    rep.explain.append(
        "src/cparser.c was lowered to LLVM IR and interpreted over abstract values: the input is a lazily revealed sequence of "
        "character classes (delimiter, quote, escape, CR, LF, NUL, any other, end of item, end of input) of unbounded length, "
        "stored lengths are intervals, and the whole iteration protocol of the parser object is iterated to a fixpoint of abstract states. "
        "Each abstract path is compared event by event with a reference transducer written from the property text. "
        "The obligations are the configurations, each explored completely.")
    rep.assumptions += ["delimiter, quote and escape character are pairwise different and none of them is CR, LF or NUL",
                        "interpreter calls and allocations succeed (failures are P07/P08)", "clang lowers C correctly"]
    from . import py_wiring
    py_wiring.check_parser(rep, pid)
