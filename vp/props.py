# -*- coding: utf-8 -*-
"""The property table: the single source of properties.jsonl and (with
vp/checks.py) of MANIFEST.json.  Run `python3 -m vp.gen` after editing."""

CP = "src/cparser.c"
AB = "src/abstraction.c"
PY = "clevercsv/"

PROPS = []


def P(id, title, statement, over, quant, why, files, mech, observe=None, state=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            **({"state": state} if state else {}),
            **({"observe_at": observe} if observe else {}),
            hook_needed=None,
        ),
    ))


# ---------------------------------------------------------------- the parser
P("P01", "Records and cells split exactly at unquoted delimiters and line ends",
  "In non-strict mode, for every text and every dialect (delimiter, quote and escape character each present or absent, and different from each other and from line ends), "
  "the reader ends a cell exactly at an unquoted unescaped delimiter and a record exactly at an unquoted unescaped line end, wherever the input is cut into lines. "
  "Inside quotes a doubled quote character is one literal quote character and delimiters and line ends are content; the escape character makes a following delimiter, quote or escape character literal and is itself kept before any other character. "
  "No other character of a cell is dropped, duplicated, altered or moved, and blank lines yield empty records.",
  ["inputs", "configurations"],
  "every sequence of input lines of any length over any characters x every present/absent combination of delimiter, quotechar, escapechar",
  "tests sample a few dozen strings; the claim is about the parser's whole transition relation (state x character x lookahead), including states reached only through combinations such as an escape at the end of a line inside quotes",
  [CP, PY + "cparser_util.py", PY + "read.py"],
  [("character state machine", CP + ":parse_process_char"), ("record loop and lookahead", CP + ":Parser_iternext"),
   ("dialect handed to the engine", PY + "read.py:reader.__iter__"), ("internal parsing entry", PY + "cparser_util.py:_parse_data")],
  ["list(clevercsv.reader(f, dialect))", "clevercsv.cparser_util.parse_string"])

P("P02", "Outer quotes are stripped, and cells flagged quoted, exactly when they should",
  "A cell left inside quotes at the end of the data loses only its opening quote, if it begins with one; any other cell of at least two characters that begins and ends with the quote character loses exactly that outer pair; every other cell keeps all its quote characters. "
  "When quoting information is requested each cell is returned as a (text, flag) pair whose flag is true exactly for the cells that lost a quote this way, and the texts are the same ones that are returned without the flag.",
  ["inputs", "configurations"],
  "every input x every dialect x with and without quoting information",
  "unit tests check single examples; the flag feeds the type score, so a wrong flag on rare shapes (lone quote, empty quoted cell, mid-cell quotes) silently changes detection",
  [CP], [("cell finalisation", CP + ":parse_save_field"), ("outer quote test", CP + ":_quotecond"), ("stripping", CP + ":_strstrip")],
  ["parse_string(..., return_quoted=True)"])

P("P03", "No record that was begun is lost at the end of the input",
  "In non-strict mode every record of which at least one character was read is delivered, also when the input ends inside a quoted cell, right after an escape character, or after an escaped line end; its final cell is delivered as well, even when it is empty. "
  "After the last record, and for an empty input, the parser stops without producing a record.",
  ["inputs", "configurations"],
  "every finite input x every dialect, in every parser state in which the input can end",
  "requires considering every (state, pending cell length, pending cells) combination at end of input; tests cover an unterminated quote only",
  [CP], [("end-of-input handling", CP + ":Parser_iternext")], ["list(clevercsv.reader(f, dialect))"])

P("P04", "Strict mode rejects malformed quoting and truncated input, and nothing else",
  "In strict mode parsing raises the package's Error exactly when a closing quote is followed by something other than the delimiter, another quote or the end of the line, or when the input ends inside a record; "
  "on every other input it returns the same records as non-strict mode.",
  ["inputs", "configurations"],
  "every input x every dialect, strict mode on, compared with strict mode off",
  "tests have a handful of strict examples; the claim is an equivalence between two modes over all inputs",
  [CP, PY + "read.py", PY + "cparser_util.py"],
  [("closing quote", CP + ":parse_process_char"), ("end of data", CP + ":Parser_iternext"), ("strict forwarded", PY + "read.py:reader.__iter__")],
  ["clevercsv.reader(f, dialect, strict=True)"])

P("P05", "Field size limit, NUL bytes and non-text lines always raise, never corrupt",
  "A cell grows to at most the configured field size limit: parsing raises the package's Error as soon as one more character would be stored, and never raises it for a cell that fits. "
  "A line containing a NUL character, an item with further text after an unquoted line end, or an item that is not a string, always raises Error; the limit in force is the one configured when iteration starts.",
  ["inputs", "configurations"],
  "every input x every limit (exact counting for limits 0..3, unlimited otherwise) x every dialect",
  "tests use one or two limits on one input shape; an off-by-one on one of the eleven places that store a character is invisible to them",
  [CP, PY + "cparser_util.py", PY + "read.py"],
  [("limit test", CP + ":parse_add_char"), ("NUL test", CP + ":Parser_iternext"), ("global limit", PY + "cparser_util.py:field_size_limit")],
  ["clevercsv.field_size_limit", "clevercsv.reader"])

P("P06", "The C extensions never touch memory out of bounds",
  "For every argument and every input length, the C extensions read and write only inside the buffers they allocated and inside the string they were given, and never use, free or return a buffer after it was released or moved.",
  ["inputs", "fault_sequences"],
  "every input string and length, every growth sequence of every internal buffer, allocation failure at every allocation",
  "an overrun needs inputs that exactly fill a 4096-element buffer or an index array; tests never reach a growth step at its boundary and would not notice a silent one-element overrun",
  [CP, AB], [("cell buffer growth", CP + ":parse_grow_buff, parse_add_char"), ("symbol stack growth", AB + ":base_abstraction"),
             ("quote index arrays", AB + ":c_merge_with_quotechar")], ["process memory"])

P("P07", "The C extensions keep reference counts balanced on every path",
  "On every path through the C extensions, including every failure path, each Python reference that is acquired is released or handed over exactly once, and no reference is used after its release; "
  "dropping a parser releases everything it holds, and every buffer a function allocates is freed or held by the parser when the function returns.",
  ["inputs", "fault_sequences"],
  "every path of every C function, with each fallible interpreter call succeeding and failing",
  "leaks and double releases happen on failure paths (allocation failure, non-iterable input, non-string line) that tests cannot provoke or observe",
  [CP, AB], [("cleanup label", CP + ":cparser_parser"), ("error label", CP + ":Parser_iternext"), ("cell hand-over", CP + ":parse_save_field"), ("destructor", CP + ":Parser_dealloc")],
  ["sys.getrefcount", "gc"])

P("P08", "Failures inside the C extensions always become Python exceptions",
  "Whenever an interpreter call or allocation made by the C extensions fails, the failing function reports failure with an exception set and does not use the missing result; "
  "no C function reports failure without an exception set, or success with one pending.",
  ["inputs", "fault_sequences"],
  "every path of every C function, with each fallible interpreter call succeeding and failing",
  "needs fault injection at each interpreter call; the test suite injects none",
  [CP, AB], [("error returns", CP + ":parse_save_field, parse_add_char, Parser_iternext"), ("allocation checks", AB + ":base_abstraction, c_merge_with_quotechar")],
  ["exception type seen by the caller"])

P("P09", "The symbol abstraction of a file follows its definition for every input",
  "The abstraction used for the pattern score consists, for every text and dialect, of: a row symbol for each line end that does not directly follow another row symbol, a delimiter symbol for each unescaped delimiter, a quote symbol for each unescaped quote character, and a cell symbol for each run of other content. "
  "The escape character makes the next character that is not a line end count as content when it is a delimiter, a quote or an escape character, and yields no symbol itself; how many cell symbols stand in a row for one run is left open, as they are counted as one later. "
  "The output depends on nothing but the text and the three dialect characters.",
  ["inputs", "configurations"],
  "every string of any length x every present/absent combination of delimiter, quotechar, escapechar",
  "tests sample some twenty strings; pattern scores silently change when one transition is off",
  [AB], [("abstraction loop", AB + ":base_abstraction")], ["clevercsv.detect_pattern.make_abstraction"])

P("P10", "Quoted blocks are merged into cells exactly",
  "Merging quoted blocks replaces every symbol from an opening quote symbol through its closing quote symbol (inside, a doubled quote symbol does not close) by a cell symbol. "
  "Every other symbol, including everything from an opening quote that is never closed, is kept, so that the length never changes.",
  ["inputs"],
  "every symbol string up to length 16 (20 in the thorough tier), and strings beginning with up to 257 closed blocks, so across every growth of the index arrays in that range",
  "tests use a few short strings, none with enough quoted blocks to reach the growth step",
  [AB], [("merge", AB + ":c_merge_with_quotechar")], ["clevercsv.detect_pattern.merge_with_quotechar"])

# ---------------------------------------------------------------- reader / dialects
P("P11", "A reader delivers each row exactly once, however it is iterated",
  "However a reader is consumed (calling next, looping, looping again after a break, mixing these, or converting to a list), each row of the underlying source is delivered exactly once and in order, and line_num equals the number of rows delivered so far.",
  ["histories", "inputs"],
  "every interleaving of iter() and next() calls on one reader, for iterator and re-iterable sources",
  "tests iterate each reader once; the property is about call histories",
  [PY + "read.py"], [("iteration protocol", PY + "read.py:reader.__iter__, __next__")], ["next(reader)", "list(reader)", "reader.line_num"])

P("P12", "Every documented way to give a dialect works and means the same",
  "A dialect given as a registered name, a csv dialect class, a csv dialect instance, a dialect object returned by the csv registry, or a SimpleDialect is accepted by both reader and writer (and so by the dictionary variants and table helpers), and yields the delimiter, quote and escape characters and strictness it describes; a SimpleDialect component that is the empty string means that component is absent (a writer cannot do without a delimiter). "
  "Format parameters given as keywords override the dialect, and an unknown dialect name or type is refused with an exception at construction.",
  ["configurations", "inputs"],
  "every member of the documented dialect union x every subset of format parameters x reader and writer",
  "tests use strings and SimpleDialect almost exclusively",
  [PY + "read.py", PY + "write.py", PY + "dialect.py"],
  [("reader resolution", PY + "read.py:reader._make_simple_dialect"), ("writer resolution", PY + "write.py:writer._make_python_dialect"), ("conversions", PY + "dialect.py:SimpleDialect.from_csv_dialect, to_csv_dialect")],
  ["clevercsv.reader(f, d)", "clevercsv.writer(f, d)"])

P("P13", "Dialect conversions and serialisation lose nothing",
  "For every dialect with valid components, serialising and deserialising it, converting it to a dictionary and back, and (when it has a delimiter, which the csv module requires) converting it to a csv dialect and back each give an equal dialect, strictness included; "
  "validation refuses exactly the dialects with an undefined or multi-character component or a strictness equal to neither True nor False, and serialisation refuses those too.",
  ["inputs", "configurations"],
  "every combination of component shape (undefined, absent, one character, several characters) and strictness",
  "tests round-trip a few fixed dialects; the csv round trip is not tested at all",
  [PY + "dialect.py"], [("conversions", PY + "dialect.py:SimpleDialect.to_dict, from_dict, to_csv_dialect, from_csv_dialect"), ("validation", PY + "dialect.py:SimpleDialect.validate")],
  ["SimpleDialect.serialize/deserialize"])

P("P14", "Dialect comparison is a consistent total order",
  "Over dialects with valid components, comparison is irreflexive, asymmetric, transitive and total, comma-delimited dialects come before semicolon-delimited ones and both before all others, and equality and hashing agree with each other and with the order: two dialects are equal exactly when all four components are, and then neither is smaller.",
  ["inputs"],
  "every pair and triple of dialects, over all orderings of their components",
  "ordering laws quantify over triples; there is no test for them, and detection sorts by this order",
  [PY + "dialect.py"], [("order", PY + "dialect.py:SimpleDialect.__lt__, __eq__, __hash__")], ["sorted(dialects)"])

P("P15", "Objects handed in by the caller are never modified",
  "Reading, writing, detecting, scoring and converting never modify the dialect objects, delimiter lists, score maps, rows, dictionaries, field-name sequences or pattern maps passed in by the caller, nor the library's own module-level tables and defaults; a second identical call therefore sees identical arguments.",
  ["inputs", "histories"],
  "every public entry point x every argument form x every path",
  "tests never look at their arguments afterwards",
  [PY + "read.py", PY + "write.py", PY + "dict_read_write.py", PY + "consistency.py", PY + "break_ties.py", PY + "detect.py", PY + "normal_form.py", PY + "potential_dialects.py", PY + "wrappers.py", PY + "detect_type.py"],
  [("dialect override", PY + "read.py:reader._make_simple_dialect"), ("pattern table copy", PY + "detect_type.py:TypeDetector.__init__")], ["the argument objects after the call"])

# ---------------------------------------------------------------- detection
P("P16", "The process-wide field size limit survives detection unchanged",
  "Detection may raise the process-wide field size limit while it runs, but on every way out of it, normal or by exception, the limit is what it was before; no other entry point except the limit setter changes it, and the setter returns the previous limit and refuses non-integers without changing it.",
  ["inputs", "fault_sequences", "histories"],
  "every path out of detection, with every call inside it able to raise",
  "the failing path needs data on which parsing raises in the middle of detection",
  [PY + "consistency.py", PY + "cparser_util.py"], [("limit window", PY + "consistency.py:ConsistencyDetector.detect"), ("limit setter", PY + "cparser_util.py:field_size_limit")], ["clevercsv.field_size_limit()"])

P("P17", "Detection is deterministic and independent of history",
  "The detected dialect and the verbose scores are a function of the sample and the options alone: they do not depend on hash randomisation, on the iteration order of sets, on time, environment or random sources, or on what was detected earlier with the same or another detector object.",
  ["histories", "configurations", "inputs"],
  "every hash seed, every sequence of earlier calls, every input",
  "a test run has one hash seed and one history; order dependence shows only on ties",
  [PY + "consistency.py", PY + "potential_dialects.py", PY + "break_ties.py", PY + "detect.py", PY + "detect_type.py", PY + "detect_pattern.py", PY + "normal_form.py"],
  [("canonical order", PY + "consistency.py:compute_consistency_scores (sorted)"), ("cache reset", PY + "consistency.py:ConsistencyDetector.detect"), ("pair reduction", PY + "break_ties.py:reduce_pairwise")], ["Detector().detect(sample)"])

P("P18", "The requested detection method is the one that is used",
  "With method 'normal' only normal-form detection decides (no result means None), with 'consistency' only the consistency measure decides, and with 'auto' normal forms are tried first and the consistency measure is used exactly when they find nothing; an unknown method name is refused with ValueError. "
  "The detector records which method produced the result.",
  ["configurations", "inputs"],
  "every method value, as enum or string, x both outcomes of normal-form detection",
  "tests never combine method='normal' with data that has no normal form",
  [PY + "detect.py"], [("dispatch", PY + "detect.py:Detector.detect")], ["Detector().detect(..., method=...)", "Detector.method_"])

P("P19", "Detection only returns dialects it was allowed to consider",
  "A dialect returned by the consistency measure is one of the potential dialects constructed from the sample; when the caller restricts the delimiters, the returned delimiter is one of the given ones or empty (no delimiter), and quote characters are empty or one of the fixed candidates that occur in the sample. "
  "Restricting the delimiters holds for both detection methods and for sniff.",
  ["inputs", "configurations"],
  "every sample x every delimiter restriction x every detection method",
  "tests check exact answers for a few files, not provenance for all",
  [PY + "detect.py", PY + "consistency.py", PY + "potential_dialects.py", PY + "normal_form.py", PY + "break_ties.py"],
  [("candidates", PY + "potential_dialects.py:get_dialects, get_delimiters, get_quotechars"), ("forwarding", PY + "detect.py:Detector.detect, sniff"), ("selection", PY + "consistency.py:get_best_dialects")], ["Detector().detect(sample, delimiters=...)"])

P("P20", "Tie breaking returns one of the tied dialects or gives up",
  "For any list of tied dialects, tie breaking returns either None or one of the dialects in that list, and never raises for lists of any length; for two dialects that differ only in the quote character with one of them unquoted, it returns the unquoted one exactly when both parse the data identically, and for comma versus space it returns comma and for hyphen versus another it returns the other.",
  ["inputs", "configurations"],
  "every list of distinct dialects of any length x every outcome of the parse comparisons",
  "tie breaking has dozens of paths; tests reach a few through real files",
  [PY + "break_ties.py"], [("dispatch", PY + "break_ties.py:tie_breaker"), ("pairs", PY + "break_ties.py:break_ties_two"), ("reduction", PY + "break_ties.py:reduce_pairwise")], ["tie_breaker(data, dialects)"])

P("P21", "The best-scoring dialects are selected, and skipping never hides a winner",
  "Every candidate dialect gets a score entry; the candidates selected are exactly those whose combined score equals the maximum of the computed ones; the combined score is the product of pattern score and type score. "
  "Skipping the type score happens only when skipping is enabled and the pattern score is strictly below the best combined score so far, so that (type scores being at most one) the selection is the same with and without skipping.",
  ["inputs", "configurations"],
  "every candidate list and every ordering of pattern and combined scores, skip on and off",
  "needs all orderings of scores; tests compare one or two files",
  [PY + "consistency.py"], [("pruning", PY + "consistency.py:compute_consistency_scores"), ("selection", PY + "consistency.py:get_best_dialects"), ("type score bound", PY + "consistency.py:compute_type_score")], ["ConsistencyDetector.detect(skip=...)"])

P("P22", "Type detection never raises on any cell",
  "For every cell text, quoted or not, type detection returns a known type name or None and never raises, whatever the cell contains (empty, whitespace, huge numbers, deeply nested or malformed JSON, any Unicode).",
  ["inputs"],
  "every string x quoted flag x strip_whitespace setting",
  "the failing cells (integers beyond the interpreter's digit limit, nesting beyond the recursion limit, empty parts after a split) are outside any sampled set",
  [PY + "detect_type.py"], [("tests chain", PY + "detect_type.py:TypeDetector.detect_type"), ("JSON guard", PY + "detect_type.py:TypeDetector.is_json_obj"), ("indexing guards", PY + "detect_type.py:is_date, is_time, is_datetime")], ["TypeDetector.detect_type(cell)"])

P("P23", "No regular expression used in detection backtracks exponentially",
  "No pattern applied to file content during detection has exponentially many ways to match a prefix of some input, so that no cell or sample can make matching take time exponential in its length.",
  ["inputs"],
  "every input string, for every pattern the package compiles",
  "exponential behaviour needs an adversarial string per pattern; the tests measure no times",
  [PY + "_regexes.py", PY + "normal_form.py", PY + "detect_pattern.py"], [("patterns", PY + "_regexes.py")], ["matching time"])

P("P24", "Date and time cells are recognised exactly per the documented formats",
  "A text is recognised as a date exactly when it has one of the documented formats (year of two digits or of four starting with 1 or 2, month 01-12, day 01-31 with or without leading zero as the format allows, the same separator out of - / . space in both places, or no separator with leading zeros, or the Chinese or Korean markers); "
  "a clock time is recognised exactly when it is h:mm, hh:mm, hh:mm:ss or hh:mm:ss with a signed hh:mm offset, with hours 00-23 (offset hours 00-19), minutes and seconds 00-59. White space around the text does not matter unless the detector was told not to strip it.",
  ["inputs"],
  "every string whose digits are ASCII (equality of the recognised regular languages, not a sample of strings)",
  "tests list example dates; equality of two infinite languages cannot be sampled",
  [PY + "_regexes.py", PY + "detect_type.py", "notes/date_regex/dateregex_formats.txt"],
  [("date pattern", PY + "_regexes.py:PATTERN_DATE"), ("time patterns", PY + "_regexes.py:PATTERN_TIME_*"), ("pattern table", PY + "_regexes.py:DEFAULT_TYPE_REGEXES")], ["TypeDetector.is_date", "TypeDetector.is_time"])

# ---------------------------------------------------------------- wrappers
P("P25", "The reading helpers read the whole file with the right dialect",
  "The table and dictionary reading helpers and dialect detection open the file in text mode without newline translation using the given encoding, or the detected one if none is given; a dialect that is given is used and no detection runs; otherwise detection sees the first num_chars characters (all if not given), reading then restarts at the beginning of the file, and if detection fails NoDetectionResult is raised and no row is delivered. "
  "The list-returning helpers return exactly the rows of the streaming ones.",
  ["inputs", "configurations"],
  "every combination of given or omitted dialect, encoding and num_chars x both outcomes of detection",
  "a path property over option combinations; tests cover a few",
  [PY + "wrappers.py"], [("streams", PY + "wrappers.py:stream_table, stream_dicts"), ("lists", PY + "wrappers.py:read_table, read_dicts"), ("detection", PY + "wrappers.py:detect_dialect"), ("dataframe", PY + "wrappers.py:read_dataframe")], ["read_table", "read_dicts", "stream_table", "stream_dicts"])

P("P26", "Options given by the user reach the code that implements them",
  "Every option a user passes to a library helper or on the command line (encoding, number of characters, verbosity, detection method, skipping, delimiters, dialect, pandas and transpose flags, extra pandas arguments) reaches the detection, reading or writing step it controls unchanged, in every command and helper that accepts it; none is ignored, swapped with another or replaced by a default.",
  ["configurations"],
  "every option of every helper and command x every path to the step it controls",
  "tests pass few non-default options, and a dropped option usually leaves results unchanged on small files",
  [PY + "wrappers.py", PY + "detect.py", PY + "consistency.py", PY + "console/commands/detect.py", PY + "console/commands/code.py", PY + "console/commands/explore.py", PY + "console/commands/standardize.py", PY + "console/commands/view.py"],
  [("helpers", PY + "wrappers.py"), ("commands", PY + "console/commands")], ["arguments of open, detect and pandas calls"])

P("P27", "Every file the package opens is closed on every way out",
  "Every file opened by the package itself is closed on every path out of the function that opened it, including exceptions raised while reading, detecting, parsing or writing and abandonment of a streaming helper midway.",
  ["fault_sequences", "inputs"],
  "every call inside an open file's lifetime able to raise, every point at which a generator can be closed",
  "leaks on exception paths are invisible to tests that check results",
  [PY + "wrappers.py", PY + "encoding.py", PY + "utils.py", PY + "console/commands/standardize.py"],
  [("with blocks", PY + "wrappers.py, encoding.py, utils.py"), ("temporary file", PY + "console/commands/standardize.py:_in_place")], ["open file descriptors"])

P("P28", "In-place standardisation replaces the file only with complete output",
  "In-place standardisation never modifies the input file until the complete standardised output has been written to a temporary file and closed; it replaces the file and returns 2 exactly when the contents differ, otherwise leaves it untouched and returns 0; and on every way out, including exceptions, no temporary file is left behind; a failure before the replacement leaves the input as it was.",
  ["crash_points", "fault_sequences", "inputs"],
  "an exception at every step of the operation, both outcomes of the comparison",
  "needs a failure injected at each step; tests only run the two success paths",
  [PY + "console/commands/standardize.py", PY + "utils.py"], [("replace protocol", PY + "console/commands/standardize.py:_in_place"), ("content comparison", PY + "utils.py:sha1sum")], ["directory contents and exit status"])

P("P29", "Standardising writes every row, in order, in the standard dialect",
  "Standardising reads the file with the detected dialect and encoding and writes every row once and in order with the excel dialect to the chosen destination (file, standard output or replacement) in the target encoding, transposed if requested; file i goes to output i with encoding i; the exit status is 0 on success, and mismatched option counts or in-place combined with outputs are refused with status 1 before any file is touched.",
  ["inputs", "configurations"],
  "every combination of destination, transposition, number of paths, outputs and encodings",
  "combinations of options and multi-file orderings are only sampled by tests",
  [PY + "console/commands/standardize.py"], [("dispatch", PY + "console/commands/standardize.py:handle, handle_path"), ("writers", PY + "console/commands/standardize.py:_write_direct, _write_transposed")], ["output files and exit status"])

P("P30", "A failed detection on the command line exits with 1 and says so",
  "When no dialect can be detected, every command that needs one prints a message to standard error, writes nothing to standard output or to any output file, and returns exit status 1; when detection succeeds the detect, code and view commands return 0.",
  ["inputs", "configurations"],
  "every command x every combination of its options x both outcomes of detection",
  "tests run the failure path of few commands",
  [PY + "console/commands/detect.py", PY + "console/commands/code.py", PY + "console/commands/explore.py", PY + "console/commands/standardize.py", PY + "console/commands/view.py"],
  [("failure branches", PY + "console/commands/*.py:handle")], ["exit status, stdout, stderr"])

P("P31", "Generated code quotes every value it embeds",
  "The Python code generated for a file is valid Python for every file name, encoding and detected dialect: each value is embedded as a string literal that evaluates to exactly that value (or as None for an absent encoding), never as raw text.",
  ["inputs"],
  "every file name, encoding and dialect character, including quotes, backslashes and control characters",
  "tests use harmless file names and dialects",
  [PY + "console/commands/_utils.py"], [("templates", PY + "console/commands/_utils.py:generate_code")], ["clevercsv code output"])

P("P32", "The writing helpers validate before touching the file and write all rows",
  "Writing a table creates or truncates the file only after the rows have been found to have equal length (ValueError otherwise, with the file untouched), writes exactly the given rows in order (transposed if requested), and creates no file when there are no rows; writing dictionaries takes the header from the first item, writes header and all items in order, and creates no file for an empty sequence. "
  "Both open the file for writing with the given encoding and no newline translation, and use the given dialect.",
  ["inputs", "configurations"],
  "every table or sequence (including generators and empty iterators) x every option",
  "tests check regular lists; order of validation and file creation and iterator inputs are not covered",
  [PY + "wrappers.py"], [("table", PY + "wrappers.py:write_table"), ("dictionaries", PY + "wrappers.py:write_dicts")], ["file system state, file contents"])

P("P33", "Parsing and writing errors surface as the package's Error",
  "Errors raised by the parsing engine while iterating a reader, or by the csv engine while writing or while resolving a dialect name, always reach the user as the package's Error with the original message, from every public entry point; errors of the caller's own iterator or file pass through unchanged.",
  ["inputs", "fault_sequences"],
  "every call that can raise an engine error x every public entry point",
  "tests check one or two error cases",
  [PY + "read.py", PY + "write.py", PY + "cparser_util.py", PY + "exceptions.py"], [("translation", PY + "read.py:reader.__next__, write.py:writer.writerow, writerows, cparser_util.py:_parse_data")], ["exception class seen by the caller"])

P("P34", "The dictionary reader loses no cell and no row",
  "For every row that is not empty the dictionary reader returns a mapping holding every cell: cells under their field names in order, surplus cells as a list under the rest key, and missing cells filled with the rest value; empty rows are skipped, and the first row is consumed as header exactly when no field names were given. "
  "Duplicate field names cause a warning, and line_num follows the underlying reader.",
  ["inputs", "configurations"],
  "every row length relative to the header x given or read field names x any number of empty rows",
  "tests use a few rows",
  [PY + "dict_read_write.py"], [("row mapping", PY + "dict_read_write.py:DictReader.__next__"), ("header", PY + "dict_read_write.py:DictReader.fieldnames")], ["DictReader rows"])

P("P35", "The dictionary writer never drops a value silently",
  "The dictionary writer writes, for every mapping, the values in field-name order with the rest value for missing keys; a key that is not a field name raises ValueError before anything of that row is written unless extras are to be ignored, the writer is refused for any other extras action, and all rows given to writerows are written in order.",
  ["inputs", "configurations"],
  "every relation between mapping keys and field names x both extras actions x writerow and writerows",
  "tests use a few mappings",
  [PY + "dict_read_write.py"], [("conversion", PY + "dict_read_write.py:DictWriter._dict_to_list"), ("action check", PY + "dict_read_write.py:DictWriter.__init__")], ["written rows"])

P("P36", "Candidate delimiters, quotes and escapes are chosen by the documented rules",
  "The delimiter candidates are the empty string plus exactly those characters of the sample that are tab, or neither blocked by character nor by Unicode category (or, if a restriction is given, exactly the sample's characters in it); quote candidates are the empty string plus the quote characters occurring in the sample; and an escape candidate is the empty string or a character directly before the dialect's delimiter or quote that is punctuation of category Po and not blocked. "
  "Every combination of these is a potential dialect.",
  ["inputs"],
  "every combination of character class facts and adjacency",
  "the rules quantify over all characters; tests sample strings",
  [PY + "potential_dialects.py", PY + "escape.py"], [("delimiters", PY + "potential_dialects.py:get_delimiters"), ("quotes", PY + "potential_dialects.py:get_quotechars"), ("escapes", PY + "potential_dialects.py:get_dialects, escape.py:is_potential_escapechar")], ["get_dialects(data)"])

P("P37", "Normal forms are accepted only for files of constant shape",
  "Normal-form detection reports a dialect only for a sample whose rows (the pieces between its line ends, after trailing ones are removed) all have that form: a dialect with a delimiter, one of those given or else comma, semicolon, bar or tab, only if every row contains it and all rows split, quotes hiding delimiters, into the same number (more than one) of cells, or if there are at least two rows, each wholly enclosed in quotes, whose contents do; "
  "a dialect without delimiter only if there are at least two rows and each is entirely quoted without quotes inside, or none is. A sample with a potential escape character before a delimiter or quote has no normal form.",
  ["inputs"],
  "every list of rows and every outcome of the per-row and per-cell tests, at any row position",
  "tests check positive examples; a test skipped for the first or last row is invisible to them",
  [PY + "normal_form.py"], [("forms", PY + "normal_form.py:is_form_1 .. is_form_5"), ("shape", PY + "normal_form.py:every_row_has_delim_and_is_the_same_length"), ("driver", PY + "normal_form.py:detect_dialect_normal")], ["detect_dialect_normal(data)"])

P("P38", "Optional packages are only needed, and always checked, where they are used",
  "Importing the package or using the library without its optional packages never fails because one is missing; a feature that needs one obtains it through the version-checked import, which raises ImportError when the package is missing or older than its minimum version (or returns nothing when asked to be silent about a missing one), and returns the module otherwise.",
  ["configurations"],
  "every optional package present, absent or too old x every import path",
  "the test environment has one fixed set of packages",
  [PY + "_optional.py", PY + "wrappers.py", PY + "encoding.py", PY + "__main__.py", PY + "console/commands/view.py"],
  [("checked import", PY + "_optional.py:import_optional_dependency"), ("uses", PY + "wrappers.py:read_dataframe, encoding.py:get_encoding, __main__.py:main")], ["ImportError or module"])

P("P39", "Encoding detection sees the file's bytes in order and finishes the detector",
  "Encoding detection opens the file in binary mode, feeds the detector the file's bytes in order and without gaps from the beginning until the end of the file or until the detector is done, always finishes the detector before taking the result, and returns that result's encoding (or None); it chooses the faster detector only when it is available and not disabled.",
  ["inputs", "configurations"],
  "every file length relative to the block size, every point at which the detector declares itself done",
  "tests use small files that fit one block",
  [PY + "encoding.py"], [("feeding loop", PY + "encoding.py:get_encoding")], ["get_encoding(filename)"])

P("P40", "Everything the documentation lists is exported",
  "Every function and class that the README presents as part of the top-level package can be imported from it and is in its export list, every name in the export list exists, the csv constants it passes on are those of the csv module, every module the docs describe exists, and every parameter a docstring names is taken by its function or class.",
  ["configurations"],
  "every documented name",
  "tests import from submodules, so a missing top-level export is never noticed",
  [PY + "__init__.py", "README.md"], [("exports", PY + "__init__.py:__all__")], ["from clevercsv import name"])

P("P41", "Header detection votes on the rows of the sample",
  "For a sample with at least one row, header detection reads the rows of the sample, with its line ends untouched, under the detected dialect and applies the rule of the csv module to the first row and at most max_rows_to_check + 1 rows of the same length after it: a column whose cells all parse as the same of integer, float or complex votes for a header when its first cell does not parse so, a column whose texts all have one length when its first cell has another length, a column without cells to check votes for a header, a mixed column does not vote; "
  "the answer is whether more columns vote for than against a header, always a bool; when no dialect is detected NoDetectionResult is raised.",
  ["inputs"],
  "every table of up to 2 columns and 3 rows over cells of every kind, every row limit",
  "tests check a few samples; a wrong vote on one kind of column shows only when it tips the majority",
  [PY + "detect.py"], [("vote", PY + "detect.py:Detector.has_header")], ["Detector().has_header(sample)"])

P("P42", "The pattern and type scores follow their definitions",
  "The pattern score of a dialect is, over the distinct row patterns of the merged abstraction of the sample (trailing row ends dropped, empty cells of rows with several cells counted as cells), the sum of (occurrences) x max(L-1, 0.001)/L divided by the number of distinct patterns, L being the number of cells of the pattern; "
  "the type score is the share of the cells, parsed under that same dialect and with their quoted flags, whose type is known, but at least eps, and so always above zero and at most one.",
  ["inputs", "configurations"],
  "every dialect, every outcome of the type test for every cell, every abstraction",
  "tests compare the score of a handful of files; a wrong count on an empty cell, a ragged row or an empty file only shifts a number",
  [PY + "detect_pattern.py", PY + "consistency.py"], [("pattern score", PY + "detect_pattern.py:pattern_score"), ("type score", PY + "consistency.py:ConsistencyDetector.compute_type_score")], ["pattern_score(data, dialect)", "ConsistencyDetector.compute_type_score(data, dialect)"])

# ---------------------------------------------------------------- not decidable here
P("P90", "What is written can be read back unchanged",
  "For every table of text cells and every dialect able to represent it, writing the table and reading it back with the same dialect gives the same table.",
  ["inputs", "configurations"], "every table x every dialect",
  "unbounded product of tables and dialects",
  [PY + "write.py", PY + "read.py", CP], [("writer", PY + "write.py"), ("reader", PY + "read.py")], ["write_table then read_table"])
P("P91", "The detected dialect is the true dialect of the file",
  "For files whose rows and cell types are regular, detection returns the dialect the file was written with.",
  ["inputs"], "every regular CSV file", "accuracy is statistical; the integration tests measure it on a corpus",
  [PY + "consistency.py", PY + "normal_form.py"], [("consistency measure", PY + "consistency.py")], ["detect_dialect(file)"])
P("P92", "Detection time is bounded by a small polynomial in the sample size",
  "Detection finishes in time polynomial of low degree in the length of the sample, for every sample.",
  ["inputs"], "every sample", "timing over all inputs",
  [PY + "consistency.py", PY + "_regexes.py"], [("type cache", PY + "consistency.py"), ("skip", PY + "consistency.py")], ["wall time"])
P("P93", "A data frame read by the package equals the table read by the package",
  "Reading a file as a data frame gives the same cells as reading it as a table, up to the type conversion of the data frame library.",
  ["inputs"], "every file", "depends on an external library's parser",
  [PY + "wrappers.py"], [("dataframe", PY + "wrappers.py:read_dataframe")], ["read_dataframe(file)"])
