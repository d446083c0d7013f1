# -*- coding: utf-8 -*-
"""Checks decided by abstract interpretation of the package's Python sources."""
import multiprocessing
import os
import resource
import time
import types

from .core import HERE, NPROC, Report
from . import pyprog


def load_harness(name):
    def text(n):
        with open(os.path.join(HERE, "vp", "harness", n + ".py"), encoding="utf-8") as f:
            return f.read()
    src = text(name)
    first = src.split("\n", 1)[0]
    use = first[7:].split() if first.startswith("# use: ") else []
    return "".join(text(n) for n in ["common"] + use) + src


def _job(job):
    """runs one scenario in a worker; returns plain data"""
    name, params, wname, opts = job
    src = load_harness(name)
    if params:
        src = "".join("%s = %r\n" % kv for kv in sorted(params.items())) + src
    try:
        world = None
        if wname:
            mod, cls = wname.split(":")
            world = getattr(__import__("vp." + mod, fromlist=[cls]), cls)()
        r = pyprog.scenario(name, src, world=world, **opts)
    except pyprog.Anchor as e:
        return dict(job=job, anchor=str(e))
    except pyprog.Unsupported as e:
        return dict(job=job, unsupported=str(e))
    except RecursionError:
        return dict(job=job, unsupported="analysis recursion too deep")
    except MemoryError:
        return dict(job=job, unsupported="the analysis ran out of memory")
    return dict(job=job, violations=r.m.violations, asserts=r.w.asserts, states=r.m.states, steps=r.m.steps, finals=r.m.finals,
                keys=r.w.assert_keys, functions=sorted(r.m.functions), lines=sorted(r.m.lines, key=repr), reached=r.w.reached, secs=r.secs,
                data=getattr(r.w, "data", None), ext=r.w.ext_seen,
                crossings=sorted(getattr(r.m, "crossings", ())), tables=sorted(getattr(r.w, "tables", ())))


SHARE = 3600 << 20
GRACE = 30          # seconds the other scenarios have once one shows a violation


def side_by_side(full, only):
    """the results of the scenarios in their order; once a violation is found the
    rest need not end"""
    found = {}
    until = None
    with multiprocessing.Pool(min(NPROC, len(full)), _limit) as pool:
        it = pool.imap_unordered(_numbered, list(enumerate(full)), chunksize=1)
        while len(found) < len(full):
            try:
                i, r = it.next(timeout=None if until is None else max(0.05, until - time.time()))
            except multiprocessing.TimeoutError:
                break
            found[i] = r
            if until is None and any(only is None or v["key"] in only for v in r.get("violations", ())):
                until = time.time() + GRACE
        pool.terminate()
    return [found[i] for i in sorted(found)]


def _limit():
    """a worker that runs out of its share of the memory fails instead of being ended"""
    resource.setrlimit(resource.RLIMIT_AS, (SHARE, SHARE))


def _numbered(x):
    return x[0], _job(x[1])


def run(rep, *jobs, expect=(), floor=1, only=None):
    """runs scenarios (name, parameters, world class, options) side by side and
    adds what was found and covered to the report; every tag in `expect` must be
    reached by some path of some scenario"""
    full = []
    for j in jobs:
        if isinstance(j, str):
            j = (j,)
        j = tuple(j) + (None, None, {})[len(j) - 1:]
        full.append(j)
    pyprog.program()
    if len(full) > 1:
        results = side_by_side(full, only)
    else:
        results = [_job(full[0])]
    reached = {}
    funcs = set(getattr(rep, "functions", []))
    nviol = 0
    problem = None
    for r in results:
        name, params = r["job"][0], r["job"][1]
        tag = name + "".join(" %s=%s" % kv for kv in sorted((params or {}).items()))
        if "anchor" in r or "unsupported" in r:
            problem = problem or "%s: %s" % (tag, r.get("anchor") or r.get("unsupported"))
            continue
        for v in r["violations"]:
            if only is not None and v["key"] not in only:
                problem = problem or "%s: another obligation fails: %s" % (tag, v["msg"])
                continue
            nviol += 1
            rep.violation("%s:%s:%s" % (name, v["key"], v["where"]), v["where"], v["msg"],
                          "scenario %s\nhow it happens:\n  %s\ncall stack:\n  %s" % (
                              tag, "\n  ".join(v["trace"][-40:]), "\n  ".join("%s %s line %s" % s for s in v["stack"])))
        rep.obligations += r["asserts"]
        rep.discharged += r["asserts"] - len(r["violations"])
        rep.count("scenarios")
        rep.count("abstract states", r["states"])
        rep.count("abstract steps", r["steps"])
        rep.count("paths ended", r["finals"])
        for k, n in r["keys"].items():
            rep.count("obligation %s" % k, n)
        for k, n in r["reached"].items():
            reached[k] = reached.get(k, 0) + n
        funcs |= {"%s.%s" % tuple(f) for f in r["functions"] if f[0].startswith("clevercsv")}
        os.environ.get("VP_SLOW") and r["secs"] > 3 and print(tag, r["secs"], flush=True)
        rep.sample("%s: %d paths, %d states, %d obligations, %.1f s" % (tag, r["finals"], r["states"], r["asserts"], r["secs"]))
    rep.functions = sorted(funcs)
    if nviol:
        return results
    if problem:
        raise pyprog.Anchor("the analysis gives no answer: " + problem)
    for e in expect:
        if e not in reached:
            raise pyprog.Anchor("no path reaches '%s': the scenario is vacuous" % e)
    if sum(r["asserts"] for r in results) < floor:
        raise pyprog.Anchor("only %d obligations were generated" % sum(r["asserts"] for r in results))
    return results


def close(rep):
    fs = getattr(rep, "functions", [])
    rep.count("package functions analysed", len(fs))
    rep.explain.append("functions analysed: " + ", ".join(fs))


def p11(rep):
    rep.rules.append("abstract interpretation of clevercsv/read.py over every sequence of three uses of a reader, for 0 to 3 rows and four kinds of source")
    run(rep, *[("P11", dict(N=n, KIND=k)) for n in range(4) for k in ("list", "iterator", "generator", "one-shot")], expect=("end", "whole", "error"))
    close(rep)


def p12(rep):
    rep.rules.append("abstract interpretation of the constructors of reader, writer, DictReader and DictWriter for every documented dialect form, "
                     "symbolic components and every kind of keyword override; what reaches the parsing or csv engine is compared with what the dialect describes")
    forms = ("class", "instance", "class without strict", "registry object", "name", "excel class", "default", "simple")
    jobs = []
    for u in ("reader", "writer", "DictReader", "DictWriter"):
        for f in forms:
            for k in ("none", "delimiter", "quotechar", "escapechar", "strict", "all") + (("others",) if u in ("writer", "DictWriter") else ()):
                jobs.append(("P12", dict(USER=u, FORM=f, KW=k)))
    run(rep, *jobs, "P12bad", expect=["reader " + f for f in forms] + ["writer " + f for f in forms] + ["unknown name", "number", "two characters"])
    close(rep)


def p13(rep):
    rep.rules.append("abstract interpretation of every conversion of a dialect, for each component undefined, empty, one symbolic character or longer; the result is compared component by component")
    run(rep, *[("P13", dict(HOW=h)) for h in ("validate", "serialize", "dict", "csv")], expect=("valid", "refused", "serialize", "dict", "csv"))
    close(rep)


def p14(rep):
    rep.rules.append("abstract interpretation of the comparison methods on two and three dialects with symbolic components under the theory of a total order on characters")
    run(rep, ("P14", dict(WHAT="pair")), ("P14", dict(WHAT="triple")), expect=("equal", "preferred", "chain"))
    close(rep)


def setter_sites(rep):
    """every place that may change the process-wide limit lies in a function the scenarios went through"""
    import ast
    prog = pyprog.program()
    seen = set(rep.functions)
    n = 0
    for mod, (path, pkg, rel) in sorted(prog.files.items()):
        tree = ast.parse(prog.source(mod))

        def walk(node, qual):
            nonlocal n
            for c in ast.iter_child_nodes(node):
                q = qual
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = qual + [c.name] + ["<locals>"]
                elif isinstance(c, ast.ClassDef):
                    q = qual + [c.name]
                elif isinstance(c, ast.Call):
                    f = c.func
                    name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                    if name == "field_size_limit" and (c.args or c.keywords):
                        n += 1
                        fn = mod + "." + ".".join(qual[:-1] if qual and qual[-1] == "<locals>" else qual)
                        if fn not in seen:
                            rep.violation("P16:site:" + fn, "%s:%d" % (rel, c.lineno), "the process-wide field size limit is changed outside the entry points of detection", "call in " + fn)
                elif isinstance(c, ast.Global) and "_FIELD_SIZE_LIMIT" in c.names:
                    n += 1
                    fn = mod + "." + ".".join(qual[:-1] if qual and qual[-1] == "<locals>" else qual)
                    if fn not in seen:
                        rep.violation("P16:global:" + fn, "%s:%d" % (rel, c.lineno), "the process-wide field size limit is changed outside the setter", "global statement in " + fn)
                walk(c, q)
        walk(tree, [])
    rep.count("places that can change the limit", n)


def p16(rep):
    rep.rules.append("abstract interpretation of every way into detection with every inner step able to raise an exception, an interrupt or a parsing error; the limit is compared before and after")
    jobs = []
    entries = ("detect", "consistency", "sniff", "has_header", "function", "scores", "twice")
    for e in entries:
        for f in (None, "dialects", "pattern", "parsing", "type", "ties", "normal"):
            jobs.append(("P16", dict(ENTRY=e, FAULT=f)))
    run(rep, *jobs, "P16set", expect=["done " + e for e in entries] + ["failed " + e for e in entries] + ["positional", "keyword", "text", "float", "none", "two"])
    setter_sites(rep)
    close(rep)


def p18(rep):
    rep.rules.append("abstract interpretation of Detector.detect and sniff for every method value and every outcome of the two methods; the calls made are compared with the requested method")
    run(rep, "P18", expect=("default", "sniff", "auto", "AUTO", "normal", "NORMAL", "consistency", "CONSISTENCY", "unknown", "used before"))
    close(rep)


def p33(rep):
    rep.rules.append("abstract interpretation of every reading and writing entry point over engines and sources that raise; class, identity and message of what reaches the user are compared with what was raised")
    rd = ("next", "for", "list", "DictReader", "DictReader names", "fieldnames", "parse_data", "parse_string")
    wr = ("writerow", "writerows", "DictWriter", "DictWriter rows")
    run(rep, *[("P33", dict(ENTRY=e)) for e in rd + wr], "P33name",
        expect=[e + " " + k for e in rd + wr for k in ("engine", "caller", "caller value error")] + ["name " + e for e in ("reader", "writer", "DictReader", "DictWriter")])
    close(rep)


def p34(rep):
    rep.rules.append("abstract interpretation of DictReader over 0 to 2 rows of 0 to 3 symbolic cells and 0 to 2 symbolic field names, given or read; every mapping is compared cell by cell")
    run(rep, *[("P34", dict(NF=n, GIVEN=g)) for n in range(3) for g in (True, False)], "P34empty", expect=("given", "header", "cell", "missing", "surplus", "empty"))
    close(rep)


def p35(rep):
    rep.rules.append("abstract interpretation of DictWriter over symbolic mappings with present, missing and foreign keys; what reaches the csv engine is compared value by value")
    run(rep, *[("P35", dict(NF=n, EXTRAS=e)) for n in (1, 2) for e in (None, "raise", "ignore", "RAISE", "Ignore")], "P35bad", expect=("header", "refused", "written", "action"))
    close(rep)


def p25(rep):
    rep.rules.append("abstract interpretation of the reading helpers over a modelled file, with symbolic name, encoding, number of characters and dialect, and detection succeeding or failing; "
                     "how the file is opened, what detection and the parser see and what is delivered are compared with the documentation")
    jobs = []
    reach = []
    for e in ("stream_table", "read_table", "stream_dicts", "read_dicts", "detect_dialect", "read_dataframe"):
        for g in (False, True):
            if g and e in ("detect_dialect", "read_dataframe"):
                continue
            for n in range(4):
                jobs.append(("P25", dict(ENTRY=e, GIVEN=g, NLINES=n)))
        reach.append(e)
        if e != "detect_dialect":
            reach.append(e + " fails")
    run(rep, *jobs, expect=reach)
    close(rep)


def p26(rep):
    rep.rules.append("abstract interpretation of every command, helper and detector entry point with each option given or not, as symbols where it takes a value; "
                     "the value that arrives at the step the option controls (open, detection, parser, csv writer, pandas, output) is compared with the one given")
    cli = []
    for fs in ([], ["--verbose"], ["--consistency"], ["--no-skip"], ["--json"], ["--plain"], ["--add-runtime"], ["--json", "--add-runtime"], ["--plain", "--add-runtime"],
               ["--verbose", "--consistency", "--no-skip"]):
        cli.append(("detect", fs, False))
    for c, f in (("code", "--pandas"), ("explore", "--pandas"), ("view", "--transpose")):
        for fs in ([], [f], ["--verbose"]):
            cli.append((c, fs, False))
    for o in (False, True):
        for fs in ([], ["--transpose"], ["--verbose"]):
            cli.append(("standardize", fs, o))
    for fs in (["--in-place"], ["--in-place", "--transpose"]):
        cli.append(("standardize", fs, False))
    jobs = [("P26", dict(CMD=c, FLAGS=fs, OUTPUT=o, FOUND_IT=True, SHAPE=[2, 2]), "worlds:CodeWorld") for c, fs, o in cli]
    helpers = ("stream_table", "read_table", "stream_dicts", "read_dicts", "detect_dialect", "positional", "positional read", "positional dicts", "read_dataframe", "given dialect")
    jobs += [("P26lib", dict(HELPER=h)) for h in helpers]
    hows = ("detect", "positional", "sniff", "sniff positional", "function")
    jobs += [("P26det", dict(HOW=h)) for h in hows]
    jobs += [("P26parse", dict(HOW=h)) for h in ("parse_data", "parse_string")]
    run(rep, *jobs, expect=["detect", "code", "explore", "view", "standardize"] + list(helpers) + list(hows) + ["parse_data", "parse_string"])
    close(rep)


def p31(rep):
    rep.rules.append("abstract interpretation of the code and explore commands with symbolic file name, encoding and dialect; the generated text is split into constant pieces and symbols, "
                     "every symbol must stand inside a construction that yields a Python literal of exactly that value, and the text is parsed to see in which argument it arrives")
    run(rep, *[("P31", dict(COMMAND_NAME=c, PANDAS_FLAG=p, ENC=e), "worlds:CodeWorld") for c in ("code", "explore") for p in (False, True) for e in ("given", "unknown", "none")],
        expect=("code False", "code True", "explore False", "explore True"))
    close(rep)


def p27(rep):
    rep.rules.append("abstract interpretation of every function and command that opens files, over a modelled file system in which every open, read, parsing, detection, writing and output step may fail "
                     "and every streaming helper may be abandoned; at the end every descriptor must be closed")
    entries = ("stream_table", "stream_dicts", "stream_table given", "stream_dicts given", "read_table", "read_dicts", "detect_dialect", "read_dataframe", "no dialect", "write_table",
               "write_table rows", "write_dicts", "write_dicts extra", "unknown dialect", "sha1sum", "detect", "code", "explore", "view", "standardize", "standardize file",
               "standardize in place", "standardize transposed", "standardize in place transposed")
    jobs = [("P27", dict(ENTRY=e, NLINES=n), None, dict(max_list=60)) for e in entries for n in range(4)]
    jobs += [("P27", dict(ENTRY="get_encoding", NLINES=n, REAL_ENCODING=True), None, dict(max_list=60)) for n in range(4)]
    must = [e for e in entries if e not in ("no dialect", "unknown dialect", "code", "explore")] + ["get_encoding"]
    run(rep, *jobs, expect=["opened " + e for e in must] + ["failed " + e for e in must])
    open_sites(rep)
    close(rep)


def open_sites(rep):
    """every place that opens a file lies in a function some scenario went through"""
    import ast
    prog = pyprog.program()
    seen = set(rep.functions)
    n = 0
    for mod, (path, pkg, rel) in sorted(prog.files.items()):
        def walk(node, qual):
            nonlocal n
            for c in ast.iter_child_nodes(node):
                q = qual
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = qual + [c.name, "<locals>"]
                elif isinstance(c, ast.ClassDef):
                    q = qual + [c.name]
                elif isinstance(c, ast.Call):
                    f = c.func
                    name = ast.unparse(f)
                    if name in ("open", "io.open", "os.open", "codecs.open", "os.fdopen", "tempfile.mkstemp", "mkstemp") or name.startswith("tempfile.") or name.endswith((".open", "TemporaryFile")):
                        n += 1
                        fn = mod + "." + ".".join(qual[:-1] if qual and qual[-1] == "<locals>" else qual)
                        if fn not in seen:
                            raise pyprog.Anchor("a file is opened in %s (%s:%d), which no scenario goes through" % (fn, rel, c.lineno))
                walk(c, q)
        walk(ast.parse(prog.source(mod)), [])
    rep.count("places that open a file", n)


def p28(rep):
    rep.rules.append("abstract interpretation of in-place standardisation over a modelled file system in which every step may fail; at the moment of the replacement the replacing file must be closed and hold "
                     "all rows, the input is never opened for writing, and on every way out no temporary file remains")
    run(rep, *[("P28", dict(FLAGS=f, NLINES=n, BLOCKS=b, FAULTS=b < 40), None, dict(max_list=100, max_counter=100)) for f in ([], ["--transpose"], ["--verbose"]) for n, b in ((0, 2), (1, 2), (2, 1), (2, 40), (3, 2))], expect=("failure", "same", "changed"))
    close(rep)


def p29(rep):
    rep.rules.append("abstract interpretation of the standardize command for 1 to 3 inputs, 0 to 3 outputs and encodings with symbolic names, every shape of file and every option; "
                     "the rows, encodings and destinations recorded are compared with the inputs")
    jobs = []

    def job(n, nout, nenc, flags, shape, bad=-1):
        jobs.append(("P29", dict(N=n, NOUT=nout, NENC=nenc, FLAGS=flags, SHAPE=shape, BAD=bad), None, dict(max_list=60)))
    for n in (1, 2, 3):
        for nout in range(4):
            for nenc in range(4):
                for fl in ([], ["--in-place"]):
                    if n < 3 or (nout in (0, n) and nenc in (0, 1, n)) or fl == []:
                        job(n, nout, nenc, fl, [2, 1])
    for fl in ([], ["--transpose"], ["--verbose"], ["--in-place"], ["--in-place", "--transpose"]):
        for shape in ([], [2], [1, 2, 2], [2, 3, 1], [0, 2]):
            for nout in (0, 1):
                if not ("--in-place" in fl and nout):
                    job(1, nout, 0, fl, shape)
    for fl in ([], ["--transpose"], ["--in-place"], ["--in-place", "--transpose"]):
        for bad in range(2):
            for nout in (0, 2):
                if not ("--in-place" in fl and nout):
                    job(2, nout, 1, fl, [1, 2], bad)
                    job(2, nout, 0, fl, [1, 2], -1)
    run(rep, *jobs, expect=("refused", "no dialect", "in place", "files", "printed"))
    close(rep)


def p30(rep):
    rep.rules.append("abstract interpretation of every command with detection finding a dialect or none, for every option; exit status, standard output and standard error are compared with the documentation")
    jobs = []
    for c, fs in (("detect", ["--verbose", "--consistency", "--no-skip", "--json", "--plain", "--add-runtime"]), ("code", ["--pandas", "--verbose"]),
                  ("explore", ["--pandas", "--verbose"]), ("view", ["--transpose", "--verbose"]), ("standardize", ["--transpose", "--in-place", "--verbose"])):
        combos = [[]] + [[f] for f in fs]
        if c == "detect":
            combos += [["--json", "--add-runtime"], ["--plain", "--add-runtime"], ["--json", "--verbose"], ["--no-skip", "--consistency"]]
        if c == "standardize":
            combos += [["--in-place", "--transpose"]]
        for f in combos:
            for o in ((False, True) if c == "standardize" and "--in-place" not in f else (False,)):
                for found in (False, True):
                    for shape in (([], [2, 2], [2, 1], [0]) if c in ("view", "standardize") else ([], [2, 2])):
                        jobs.append(("P26", dict(CMD=c, FLAGS=f, OUTPUT=o, FOUND_IT=found, SHAPE=shape), "worlds:CodeWorld", dict(max_list=60)))
    cmds = ("detect", "code", "explore", "view", "standardize")
    run(rep, *jobs, expect=[c + " fails" for c in cmds] + list(cmds))
    close(rep)


def p32(rep):
    rep.rules.append("abstract interpretation of write_table and write_dicts over tables of 0 to 3 rows of 0 to 3 symbolic cells and 0 to 3 mappings, given as lists, tuples, iterators and generators; "
                     "the modelled file system records when the file is opened and what is written")
    shapes = [[], [0], [1], [2], [0, 0], [1, 1], [2, 2], [3, 3], [1, 2], [2, 1], [0, 1], [2, 0], [2, 2, 2], [2, 2, 1], [2, 1, 2], [1, 2, 2], [3, 3, 3, 2]]
    jobs = [("P32", dict(SHAPE=s, FORM=f), None, dict(max_list=60)) for s in shapes for f in ("list", "tuples", "generator", "iterator", "cells")]
    jobs += [("P32dicts", dict(N=n, FORM=f), None, dict(max_list=60)) for n in range(4) for f in ("list", "tuple", "generator", "iterator")]
    run(rep, *jobs, expect=("refused", "empty", "written", "no items", "items"))
    close(rep)


def p38(rep):
    from . import optional
    rep.rules.append("abstract interpretation of the version-checked import for every listed package, every state of it and every way of asking; import closure of every module of the library; "
                     "every executed import of an optional package happens on a path on which it was checked")
    mins = optional.declared()
    rows = optional.entries()
    prog = pyprog.program()
    rel = prog.files["clevercsv._optional"][2]
    jobs = []
    named = set()
    for vals, line in rows:
        if len(vals) != 3:
            raise pyprog.Anchor("a row of the table of optional packages is not constant (line %d)" % line)
        name, package, version = vals
        named.add(package)
        rep.obligations += 1
        if package not in mins:
            rep.violation("P38:table:" + package, "%s:%d" % (rel, line), "an optional package is listed that the project does not declare", package)
            continue
        jobs.append(("P38", dict(NAME=name, MINIMUM=mins[package], PACKAGE=package)))
        rep.discharged += 1
    optnames, need, stm = optional.table()
    n = 0
    for mod in sorted(prog.files):
        if mod.startswith("clevercsv.console"):
            continue
        n += 1
        rep.obligations += 1
        if need[mod]:
            rep.violation("P38:import:" + mod, prog.files[mod][2] + ":1", "the module cannot be imported without optional packages", ", ".join(sorted(need[mod])))
        else:
            rep.discharged += 1
    rep.count("library modules importable without optional packages", n)
    jobs += [("P38use", dict(ENTRY=e, REAL_ENCODING=r), "worlds:OptionalWorld", dict(max_list=60))
             for e, r in (("read_dataframe", False), ("get_encoding", True), ("without fast", True), ("read_table", True), ("view", False), ("main", False))]
    res = run(rep, *jobs, expect=("missing", "silent", "older", "accepted", "read_dataframe", "read_dataframe refused", "get_encoding", "without fast", "read_table", "view", "view refused", "main", "main refused"))
    executed = set()
    for r in res:
        executed |= set(r.get("data") or ())
    n = 0
    for mod in sorted(prog.files):
        for names, line, fn, guarded in stm[mod]:
            if guarded or (fn is None and mod.startswith("clevercsv.console")):
                continue
            w = set()
            for x in names:
                w |= need.get(x, {x.split(".")[0]} & set(optnames))
            if mod.startswith("clevercsv.console"):
                w.discard("wilderness")
            if not w:
                continue
            n += 1
            rep.obligations += 1
            if (mod, line) not in executed and not checked_before(fn, line, w):
                rep.violation("P38:site:%s:%s" % (mod, ",".join(sorted(w))), "%s:%d" % (prog.files[mod][2], line), "an optional package is imported on a path that was not found to check it first", ", ".join(sorted(w)))
            else:
                rep.discharged += 1
    rep.count("imports of optional packages in functions", n)
    close(rep)


def checked_before(fn, line, names):
    """the same function asks for the package, raising if it is missing, before the line, not below a condition"""
    import ast
    if fn is None:
        return False
    for s in fn.body:
        if s.lineno >= line:
            break
        if isinstance(s, (ast.Expr, ast.Assign)) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func).split(".")[-1] == "import_optional_dependency":
            c = s.value
            silent = len(c.args) > 1 or any(k.arg == "raise_on_missing" and not (isinstance(k.value, ast.Constant) and k.value.value is True) for k in c.keywords)
            if c.args and isinstance(c.args[0], ast.Constant) and not silent:
                names = names - {c.args[0].value}
    return not names


def p39(rep):
    rep.rules.append("abstract interpretation of get_encoding over files of 0 to 3 and 300 full blocks and a short or empty last one, the detector done or not after every feed, the faster detector present, absent or disabled; "
                     "the blocks fed are compared with the file")
    run(rep, *[("P39", dict(NFULL=n, LAST=l, EARLY=n < 4), None, dict(max_list=400, max_counter=400)) for n in (0, 1, 2, 3, 70) for l in ("empty", "short")], expect=("end of file", "done", "fast", "slow"))
    close(rep)


def tie_shapes():
    """lists of distinct dialects up to renaming of the unknown characters"""
    import itertools
    full = ("base", "cell", "quoted pair", "two quoted pairs", "shape", "count", "nothing")

    def growth(n, nq, ne):
        def go(pre):
            if len(pre) == n:
                yield pre
                return
            mq = max([q for q, _ in pre] + [0])
            me = max([e for _, e in pre] + [0])
            for q in range(min(mq + 1, nq) + 1):
                for e in range(min(me + 1, ne) + 1):
                    if (q, e) not in pre:
                        yield from go(pre + [(q, e)])
        return go([])
    yield [], full
    yield [("|", 1, 0)], full
    for qe in growth(2, 2, 2):
        yield [(",",) + qe[0], (",",) + qe[1]], full
    delims = (",", " ", "-", "", None)
    for a, b in itertools.permutations(delims, 2):
        for qe in ([(0, 0), (0, 0)], [(1, 0), (1, 0)], [(1, 1), (1, 1)], [(0, 0), (1, 0)], [(1, 1), (1, 0)]):
            yield [(a,) + qe[0], (b,) + qe[1]], full
    for qe in growth(3, 3, 1):
        yield [("|",) + x for x in qe], ("base", "cell", "quoted pair", "shape")
    for ds in (("|", "|", None), ("|", None, ","), (None, "|", "|"), ("|", None, "|")):
        for qe in ([(0, 0), (1, 0), (2, 0)], [(0, 0), (0, 0), (0, 0)], [(0, 0), (1, 1), (1, 0)]):
            if len({(d,) + x for d, x in zip(ds, qe)}) == 3:
                yield [(d,) + x for d, x in zip(ds, qe)], ("base", "cell")
    for qe in growth(4, 3, 1):
        yield [("|",) + x for x in qe], ("base", "quoted pair")
    yield [("|", 0, 0), (None, 0, 0), ("|", 1, 0), (None, 1, 0)], ("base", "cell")
    for n in (5, 6, 7):
        yield [("|", i % 4, i // 4) for i in range(n)], ("base", "cell")


def p20(rep):
    rep.rules.append("abstract interpretation of tie breaking on lists of 0 to 7 dialects with symbolic components, for every combination of parse results")
    run(rep, *[("P20", dict(SHAPE=s, LIKE=l), "strworld:CharWorld", dict(max_list=60, max_counter=40)) for s, l in tie_shapes()], *[
        ("P20", dict(SHAPE=s, LIKE=l), "strworld:CharWorld", dict(max_list=2000, max_counter=100000, max_steps=40000000)) for s, l in (
            ([("|", 0, 0), ("|", 1, 0)], ("long", "long cell", "long shape", "middle", "longer")),
            ([("|", 1, 0), ("|", 0, 0)], ("long", "long cell")),
            ([("|", 0, 0), ("|", 1, 0), ("|", 2, 0)], ("long", "long cell")),
            ([("|", 0, 0), ("|", 0, 1)], ("long", "long cell")))], expect=("none", "broken", "quote rule", "comma rule", "hyphen rule"))
    close(rep)


def p21(rep):
    rep.rules.append("abstract interpretation of the consistency measure on 0 to 4 potential dialects with symbolic scores under the theory of a total order")
    jobs = [("P21", dict(ORDER=o, SKIP=s, ENTRY=e), "strworld:ScoreWorld")
            for o in ([], [0], [1], [0, 1], [1, 0], [0, 1, 2], [2, 1, 0], [1, 2, 0], [3, 1, 2, 0]) for s in (True, False) for e in ("detect", "function", "scores")]
    run(rep, *jobs, expect=("unique", "tie", "nothing", "skipped", "scores"))
    close(rep)


def p42(rep):
    import itertools
    rep.rules.append("abstract interpretation of the two scores: the pattern score on every abstraction of up to 6 cells, delimiters and row ends, the type score on samples of up to 4 rows under every outcome of the type test")
    texts = ["".join(t) for n in range(7) for t in itertools.product("CDR", repeat=n)]
    texts = [t for t in texts if "RR" not in t.rstrip("R")[:-1] or len(t) < 5]
    texts += ["".join(t) for n in range(1, 5) for t in itertools.product("CDRQ", repeat=n) if "Q" in t]
    texts += ["CDCRCDCRCDC", "CDCDCRCDCRCDCDC", "CRCRCDCRCR", "DDRDDRDRDDD", "CDCRCDDRCDC", "CDCDCDCDCDCDCRCDCDCDCDCDCDC", "CDCCCRCDC", "CRCDCRCDCDCRCDCDCDCRCDCDCDC"]
    rows = ("", "C", "CDC", "D", "DD", "CDD", "DDC", "DCD", "CDCDC", "DDD", "CDDDC", "CDCDCDC", "DDDC", "CDDD")
    texts += [a + "R" + b + end for a in rows for b in rows for end in ("", "R")]
    texts += [a + "R" + b + "R" + a + "R" + a + "R" + c for a in rows[1:] for b, c in (("CDC", "CDC"), ("DD", "CDCDC"), ("DDD", "CDCDCDC"))]
    texts += ["R".join(["CDC"] * 70 + ["CDCDC"]), "R".join(["CDCDC"] * 30 + ["DD"] * 30 + ["CDC"]), "R".join(["CD" * k + "C" for k in range(30)]), "R".join(["D" * k for k in range(12)]), "D" * 40 + "R" + "CD" * 40 + "C"]
    texts = list(dict.fromkeys(texts))
    n = 40
    jobs = [("P42pattern", dict(TEXTS=texts[i:i + n]), "strworld:CharWorld", dict(max_list=60, max_counter=100)) for i in range(0, len(texts), n)]
    rep.count("abstractions", len(texts))
    jobs += [("P42type", dict(SHAPE=s), "strworld:CharWorld", dict(max_list=60, max_counter=100)) for s in ([], [0], [0, 0], [1], [2], [3], [1, 1], [2, 2], [1, 0, 2], [2, 1, 1], [3, 1], [4], [1, 1, 1, 1])]
    run(rep, *jobs, expect=("type score", "no cells", "pattern score"))
    close(rep)


def p36(rep):
    rep.rules.append("abstract interpretation of the choice of potential dialects for samples of unknown characters among known ones, with and without URLs, a restriction of the delimiters and an encoding; "
                     "the result is compared with the documented rules for every outcome of the character tests")
    jobs = []

    def job(data, nourl=None, given=None, enc=None):
        jobs.append(("P36", dict(DATA=data, NOURL=nourl, GIVEN=given, ENC=enc), "strworld:CharWorld", dict(max_list=100, max_counter=100)))
    for d in ("", "a", "ab", "aa", 'a"', '"a', "a'", "a~", "a`", "a,", ",a", "\ta", "a\t", 'a"b', "\\a", "a\\,", '\\"a', '"a\\"', "@,@a", "@;\"@'", "x@~y@`,", '\\,a@"', "..a", "/a/", "\n,\r\na", "@,;@;", "a\n\\\"'"):
        job(d)
    for e in ("ascii", "UTF-8", "latin-1", "utf-16"):
        for d in ("a", 'a"', "a,"):
            job(d, enc=e)
    for g in ("", "a", "b", ",", ",;", "\t", '"', "."):
        for d in ("a", "a,", '\\a"', "\t,", '.,"a'):
            job(d, given=g)
    for d, n in (("a@,b", "aU"), ("@,;\"'", "U;U"), ("\\|a|", "\\|U|"), ("@'@\"ab", "aUb"), ("\\ta,\\;", "U,\\;"), ("@~", "U")):
        for g in (None, ",", ";"):
            job(d, nourl=n, given=g)
    run(rep, *jobs, expect=("urls", "dialects", "several", "escape"))
    close(rep)


def p37(rep):
    rep.rules.append("abstract interpretation of normal form detection on samples in which up to three characters are unknown, patterns included; whatever it reports is checked against the rows of the sample")
    one = ["", "a", "ab", "abc", "a\nb\nc", "xa\nyb", "x,abcy", "x,y\nazb", "x,y\nza\nw,b", "a,y\nx,b\nx,y", "x,y\nz,w\nab", "ab\nx,y\nz,w", "x,y\r\nz,w\r\nab", "x,y\rz,w\rab", "x,y\nz,wab\n\n",
           "x,y\n\na,b", "x,y,z\nw,ab", "x,y\nz,a,b", '"x","y"\n"z"ab', '"x"a"y"\n"z"b"w"', '"x","y"\n"z","w"\n"p"ab', '"x","y"\n"z"ab\n"p","q"', '"x"ab\n"z","y"', '"x","ay"b\n"z","y"',
           '"x,y",ab\n"z,w","v"', 'x,"y"\nza"w"b', 'x,"y,z"\nw,ab', 'x,"y"\nab', 'x,"y"\nz,"w"\nv,ab', 'x\nab', '"x"\n"ya"b', '"x"a"y"b', "'x'\n'a'b", "ab\nx\ny", "x\ny\nab", '"x y"\n"ab"', '"x"\n"y"\nab', 'ab\n"x"\n"y"',
           '"x,y"\n"zab', '"x,y"\n"za"w"b', '"x,y"\n"z,w"\nab', '"x,y"\nab', 'ab\n"x,y"', '"x","y",\n"z","w"ab', '"x","y"ab\n"z","w",', "'x','y'\n'z'ab", "'x','y'\n\"z\"a'w'b", '"",""\n"a",b', '"x";"y"\n"z"a"w"b',
           'x,"y,\nz",w\nab', 'x,y\\ab', 'x@,y\na@b', '"x@"a"y"b', "x,y\na'b", "x,y\n'z,w'ab"]
    # one row that deviates, far from the first
    for n, where in ((130, 129), (130, 64), (1100, 1099)):
        for row, odd in (("x,y", "z"), ("x,y", "xab"), ('"x","y"', '"x","y"ab'), ('"x"', 'x'), ("x", '"x"'), ('"x,y"', '"x"')):
            if n > 1000 and "a" in odd:
                continue
            one.append("\n".join(odd if i == where else row for i in range(n)))
    jobs = [("P37", dict(DATA=d, GIVEN=","), "strworld:CharWorld", dict(max_list=10000, max_counter=100000, max_steps=40000000)) for d in one]
    jobs += [("P37", dict(DATA=d, GIVEN=g), "strworld:CharWorld", dict(max_list=100, max_counter=100000, max_steps=40000000)) for d, g in (
        ("ab", None), ("x,ab", None), ("x|ya\nz|w", None), ("x;y\nzab", None), ("x\ty\nz\tab", None), ('"x|y"a"x|z"b', None), ("'x'|'y'\n'z'|a", None), ("ab", "c"), ("xcy\nzab", "c"), ("ab", ",;"), ("x,y;z\nw,va", ",;"),
        ("x,y;z\nw;v,ab", ";,"), ("ab", ""), ("x:y\nz:ab", ":"), ("x~y\nz~a@~b", "~"))]
    run(rep, *jobs, expect=("normal form", "no normal form", "single column", "several columns", "one shape", "quoted rows"))
    close(rep)


def p19(rep):
    rep.rules.append("abstract interpretation of detection from every entry point on samples of unknown characters among known ones, with every restriction of the delimiters; scores and tie breaking are replaced by every outcome; "
                     "the detected dialect is compared with the restriction, the sample and the potential dialects")
    jobs = []

    def job(data, given, form, entry):
        jobs.append(("P19", dict(DATA=data, GIVEN=given, FORM=form, ENTRY=entry), "strworld:CharWorld", dict(max_list=100, max_counter=100000, max_steps=40000000)))
    for e in ("detect", "sniff", "normal", "consistency", "function", "again"):
        for d, g, f in (("", ",", "list"), ("a", ",", "list"), ("x,y\nz,w", ";", "list"), ("x,y\nz,w", ",;", "iterator"), ("x,y\nz,w", "", "list"), ("x,y\nz,w", "a", "tuple"), ("x,y\nz,w", None, "list"),
                        ('"x","y"\n"z","w"', ";", "string"), ('"x","y"\n"z","w"', "a", "list"), ('"x"a"y"\n"z"a"w"', ",;", "iterator"), ("xay", ",", "list"), ("xay\nzaw", "a", "iterator"), ("xay\nzaw", ",", "list"),
                        ("'x'|'y'", ",", "list"), ("x,ya", None, "list"), ("a|", None, "list"), ("x@,y@;", ";", "list"), ("x;y\nz;w", ",", "list"), ("x\ty\nz\tw", ",|", "list"), ("x y\nz w", ",", "string"), ("", "", "list")):
            job(d, g, f, e)
    es = ("detect", "sniff", "normal", "consistency", "function", "again")
    run(rep, *jobs, expect=["asked " + e for e in es] + ["found " + e for e in es] + ["none", "by consistency", "by normal form"])
    close(rep)


def jobs_of(p):
    """the scenarios of another check"""
    class Got(Exception):
        pass
    got = []

    def take(rep, *jobs, **kw):
        got.extend(jobs)
        raise Got
    env = dict(p.__globals__, run=take)
    try:
        types.FunctionType(p.__code__, env)(Report("none"))
    except Got:
        pass
    return got


def p15(rep):
    rep.rules.append("the scenarios of the other checks are followed with everything they hand to the package, the package's tables, its classes and its default arguments marked: no step of a package function may change what is marked")
    jobs = []
    for p in (p11, p12, p13, p14, p16, p18, p19, p20, p21, p25, p26, p27, p28, p29, p30, p31, p32, p33, p34, p35, p36, p37, p42):
        for j in jobs_of(p):
            j = (j,) if isinstance(j, str) else tuple(j)
            j = j + (None, None, {})[len(j) - 1:]
            jobs.append(j[:3] + (dict(j[3], protect=True),))
    jobs += [("P15", dict(ENTRY=e), w, dict(protect=True)) for e, w in P15_ENTRIES]
    pyprog.program()
    results = side_by_side(jobs, ("modified",))
    crossed, tables, funcs = set(), set(), set()
    problem = None
    for r in results:
        name, params = r["job"][0], r["job"][1]
        tag = name + "".join(" %s=%s" % kv for kv in sorted((params or {}).items()))
        if "anchor" in r or "unsupported" in r:
            problem = problem or "%s: %s" % (tag, r.get("anchor") or r.get("unsupported"))
            continue
        for v in r["violations"]:
            if v["key"] == "modified":
                rep.violation("%s:%s" % (v["msg"], v["where"]), v["where"], v["msg"],
                              "scenario %s\nhow it happens:\n  %s\ncall stack:\n  %s" % (tag, "\n  ".join(v["trace"][-40:]), "\n  ".join("%s %s line %s" % s for s in v["stack"])))
        crossed |= set(r["crossings"])
        tables |= set(r["tables"])
        funcs |= {"%s.%s" % tuple(f) for f in r["functions"] if f[0].startswith("clevercsv")}
        rep.count("scenarios")
        rep.count("abstract states", r["states"])
        rep.count("abstract steps", r["steps"])
        rep.count("paths ended", r["finals"])
        rep.obligations += r["finals"]
        rep.discharged += r["finals"] - sum(v["key"] == "modified" for v in r["violations"])
    if problem and not rep.violations:
        raise pyprog.Anchor("the analysis gives no answer: " + problem)
    rep.count("entry points handed marked arguments", len(crossed))
    rep.count("tables and default arguments marked", len(tables))
    rep.functions = sorted(funcs)
    rep.explain.append("entry points: " + ", ".join(sorted(crossed)))
    rep.explain.append("tables: " + ", ".join(sorted(tables)))
    close(rep)


P15_ENTRIES = tuple((e, w) for e, w in (
    ("types", None), ("candidates", "strworld:CharWorld"), ("escape", "strworld:CharWorld"), ("ties2", None), ("ties3", None), ("ties4", None), ("ties5", None),
    ("scores", None), ("forms", "strworld:CharWorld"), ("patterns", None), ("detector", None), ("classes", None)))


def p17(rep):
    rep.rules.append("abstract interpretation of two detections of one sample in one run: the first iterates sets in one order and is the first thing done, the second iterates them in every order or comes after other detections; "
                     "everything the interpreter does not determine (hashes, addresses, time, random numbers, the environment) is a new unknown each time it is asked; both must give the same dialect and the same scores")
    jobs = []
    W, O = "strworld:OrderWorld", dict(max_list=100, max_counter=100000, max_steps=40000000, max_states=400000)

    def job(data, given, method, before, entry, tied):
        jobs.append(("P17", dict(DATA=data, GIVEN=given, METHOD=method, BEFORE=before, ENTRY=entry, TIED=tied), W, O))
    for data, given in (("a,b", None), ("a,'", None), ("a, b", None), ("a-,", None), ("a,\"'", ","), (";,|", ",;|"), ("@,'", ","), ("a@,", None), ("a'", ""), ("a,b\nc", "|"), ("", None)):
        for entry, method in (("detector", "auto"), ("detector", "consistency"), ("unskipped", "consistency"), ("class", None), ("scores", None)):
            for tied in ("all", "quotes", "types") if entry != "detector" or method == "auto" else ("delimiter", "escapes", "none"):
                job(data, given, method, "", entry, tied)
    for before in ("other", "other delimiters", "no delimiters", "same", "failure"):
        for entry, method in (("detector", "auto"), ("detector", "normal"), ("detector", "consistency"), ("sniff", "auto"), ("class", None), ("function", None), ("scores", None)):
            for data, given in (("a,b\nc", None), ("a,'b'\nc", ",;"), ("a@,b", None)):
                for tied in ("quotes", "types"):
                    job(data, given, method, before, entry, tied)
    for data, given in (("abcd,e", None), ("ab,c|\n", ",|")):
        for entry in "class", "scores":
            job(data, given, None, "", entry, "quotes")
    for method in "auto", "normal", "consistency":
        for data in "a,b\nc,d", "a,b\nc":
            for tied in "quotes", "types":
                job(data, None, method, "other method", "detector", tied)
    c, q, e = [(",", "", ""), (",", "'", ""), (",", '"', "")], [(",", "'", "@"), (",", '"', "@")], [(x, "", "") for x in ",;|\t- :"]
    for tied in c[:2], c, c + q[:1], c + q, c + [(",", "~", "")], c[:2] + q[:1], e[:2], e[:3], e[:4], e[:5], e[:7], e[:1] + e[5:6], e[3:5], c[:1] + q[:1], c[1:2] + q[:1], [(",", x, y) for x in "'\"" for y in "@!"]:
        for before in "", "same":
            job("a,'b'", None, None, before, "ties", tied)
    run(rep, *jobs, expect=("orders", "detected", "nothing detected", "history other", "history failure", "history same"))
    close(rep)


def doc_parameters(doc):
    """the parameter names of the numpy style Parameters section of a docstring"""
    import inspect
    import re
    out, lines, inside = [], inspect.cleandoc(doc or "").splitlines(), False
    for i, line in enumerate(lines):
        nxt = lines[i + 1] if i + 1 < len(lines) else ""
        if re.match(r"-{3,}\s*$", nxt) and line.strip():
            inside = line.strip() == "Parameters"
            continue
        if inside and re.match(r"[*\w]", line) and not re.match(r"-{3,}\s*$", line):
            head = line.split(":")[0]
            if re.match(r"[*\w][\w, *]*$", head.strip()):
                out += [x.strip().lstrip("*") for x in head.split(",")]
    return out


def p40(rep):
    import ast
    import re
    from . import core
    rep.rules.append("the package is initialised by abstract interpretation; its names are compared with the export list, with the names the README and the docs present, and its documented parameters with the signatures")
    prog = pyprog.program()
    top = prog.modules.get("clevercsv")
    if top is None:
        raise pyprog.Anchor("the package clevercsv is gone")
    ns = prog.base[top[1]]["attrs"]
    dyn = "__getattr__" in ns

    def names_of(ref):
        return [s[1][2] for s in prog.base[ref[1]]["segs"] if s[0] == "i" and s[1][0] == "k"]

    def has(name):
        return name in ns or dyn or "clevercsv." + name in prog.modules
    init = "clevercsv/__init__.py"
    al = ns.get("__all__")
    listed = []
    if al is not None:
        listed = [x[2] for x in al[1]] if al[0] == "tup" else names_of(al)
        rep.count("names in the export list", len(listed))
        for n in listed:
            rep.oblige(has(n), "export:" + n, init, "the export list names %s, which does not exist" % n)
    with open(os.path.join(core.REPO, "README.md"), encoding="utf-8") as f:
        readme = f.read()
    told = {}
    for block in re.findall(r"```python\n(.*?)```", readme, re.S):
        for n in re.findall(r"(?<![\w./])clevercsv\.([A-Za-z_]\w*)\s*\(", block):
            told.setdefault(n, "an example of the README")
    for n in re.findall(r"clevercsv\.html#clevercsv\.wrappers\.(\w+)", readme):
        told.setdefault(n, "the README")
    if len(told) < 5:
        raise pyprog.Anchor("the README no longer presents the functions of the package")
    wr = prog.modules.get("clevercsv.wrappers")
    for n, where in sorted(told.items()):
        rep.count("names presented by the README")
        rep.oblige(has(n), "documented:" + n, init, "%s is presented by %s and cannot be imported from the package" % (n, where))
        if listed and al is not None:
            rep.oblige(n in listed, "listed:" + n, init, "%s is presented by %s and not in the export list" % (n, where))
        if wr is not None and n in ns and n in prog.base[wr[1]]["attrs"]:
            rep.oblige(ns[n] == prog.base[wr[1]]["attrs"][n], "other:" + n, init, "%s of the package is not the documented %s of its module" % (n, n))
    for root, _, files in os.walk(os.path.join(core.REPO, "docs")):
        for fn in files:
            if fn.endswith(".rst"):
                with open(os.path.join(root, fn), encoding="utf-8") as f:
                    for mod in re.findall(r"^\.\. automodule:: (clevercsv[\w.\\]*)", f.read(), re.M):
                        mod = mod.replace("\\", "")
                        rep.count("documented modules")
                        base = os.path.join(core.REPO, *mod.split("."))
                        rep.oblige(os.path.exists(base + ".py") or os.path.isdir(base), "module:" + mod, os.path.relpath(os.path.join(root, fn), core.REPO), "the documented module %s does not exist" % mod)
    for n in ("QUOTE_ALL", "QUOTE_MINIMAL", "QUOTE_NONE", "QUOTE_NONNUMERIC"):
        if n in listed:
            import csv
            v = ns.get(n)
            rep.oblige(v is None or v[0] != "k" or v[2] == getattr(csv, n), "constant:" + n, init, "%s is not the constant of the csv module" % n)
    # documented parameters
    for path in sorted(prog_files(core.REPO)):
        with open(os.path.join(core.REPO, path), encoding="utf-8") as f:
            tree = ast.parse(f.read())
        for owner in ast.walk(tree):
            if not isinstance(owner, (ast.Module, ast.ClassDef)):
                continue
            for d in owner.body:
                if isinstance(d, ast.FunctionDef) and not d.name.startswith("_"):
                    check_doc(rep, path, d.name, ast.get_docstring(d), d.args)
                elif isinstance(d, ast.ClassDef):
                    ctor = [x for x in d.body if isinstance(x, ast.FunctionDef) and x.name == "__init__"]
                    fields = [x.target.id for x in d.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
                    if ctor or fields:
                        check_doc(rep, path, d.name, ast.get_docstring(d), ctor[0].args if ctor else None, fields)
    close(rep)


def prog_files(repo):
    for root, _, files in os.walk(os.path.join(repo, "clevercsv")):
        for fn in files:
            if fn.endswith(".py"):
                yield os.path.relpath(os.path.join(root, fn), repo)


def check_doc(rep, path, name, doc, args, fields=()):
    told = doc_parameters(doc)
    if not told:
        return
    rep.count("documented signatures")
    known = list(fields)
    open_ = False
    if args is not None:
        known += [a.arg for a in args.posonlyargs + args.args + args.kwonlyargs] + [a.arg for a in (args.vararg, args.kwarg) if a]
        open_ = args.kwarg is not None
    for p in told:
        rep.oblige(p in known or open_, "parameter:%s.%s" % (name, p), path, "%s documents the parameter %s and does not take it" % (name, p))


def p41(rep):
    rep.rules.append("abstract interpretation of header detection over tables of cells of every kind, compared with the voting rule of the csv module; detection and the parser are replaced by recorders")
    jobs = [("P41", dict(HEADER=("a",), ROWS=(), FOUND=False, MAX=None))]
    one = (("1",), ("2.5",), ("1j",), ("ab",), ("",), ("x", "y"), ())
    for h in (("7",), ("ab",), ("x.5",), ("1e3",), ("",)):
        for n in (0, 1, 2, 3):
            jobs.append(("P41", dict(HEADER=h, ROWS=(one,) * n, FOUND=True, MAX=None)))
        for mx in (0, 1):
            jobs.append(("P41", dict(HEADER=h, ROWS=(one[:6],) * 3, FOUND=True, MAX=mx)))
        jobs.append(("P41", dict(HEADER=h, ROWS=((("1,5",), (" 7 ",), ("1_0",), ("inf",), ("0x1",), ("True",), ("1e400",)),) * 2, FOUND=True, MAX=None)))
    for h in "ab", "7":
        for k in (0, 9, 10, 19, 20, 21, 24):
            jobs.append(("P41", dict(HEADER=(h,), ROWS=tuple(one[:1] if i != k else one for i in range(25)), FOUND=True, MAX=None), None, dict(max_list=100, max_counter=1000)))
    two = (("1", "ab"), ("1", "1"), ("ab", "abc"), ("1j", ""), ("ab",), ("2.5", "cd"))
    for h in (("name", "id"), ("1", "ab"), ("ab", "ab"), ("2", "x"), ("3", "4")):
        for n in (1, 2, 3):
            jobs.append(("P41", dict(HEADER=h, ROWS=(two,) * n, FOUND=True, MAX=None)))
    jobs.append(("P41", dict(HEADER=(), ROWS=(((), ("a",)),) * 2, FOUND=True, MAX=None)))
    run(rep, *jobs, expect=("no dialect", "header", "no header"))
    close(rep)
