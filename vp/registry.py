# -*- coding: utf-8 -*-
CHECKS = {}


def C(pid, run, technique, note):
    CHECKS[pid] = dict(run=run, technique=technique, note=note)


_T = "abstract interpretation of the compiled C (LLVM IR) to a fixpoint, compared event by event with a reference transducer"
_N = ("Covers every input length and every cutting of the input into items, for all present/absent combinations of the dialect characters; "
      "characters are abstracted to classes, stored lengths to intervals, %s Trusts clang's lowering, the models of the interpreter calls, and that the dialect characters differ from each other and from line ends.")
C("P01", "check_parser:check", _T, _N % "allocation is assumed to succeed.")
C("P02", "check_parser:check", _T, _N % "allocation is assumed to succeed.")
C("P03", "check_parser:check", _T, _N % "allocation is assumed to succeed.")
C("P04", "check_parser:check", _T, _N % "strict mode on, compared with the reference that also decides non-strict mode.")
C("P05", "check_parser:check", _T, _N % "limits 0 to 3 are counted exactly and stand for every limit.")

_TC = "relational abstract interpretation of the compiled C (LLVM IR): difference bounds and linear equalities over lengths, an ownership count per object, every call failing or succeeding"
_NC = ("Covers every input length and every sequence of calls on a parser, from every entry point the interpreter can call, including iterators that use the parser they feed. "
       "Trusts clang's lowering and the models of the interpreter calls; %s")
C("P06", "check_c:p06", _TC, _NC % "sizes are assumed to stay below 2^62.")
C("P07", "check_c:p07", _TC, _NC % "objects the caller owns are assumed to outlive the call.")
C("P08", "check_c:p08", _TC, _NC % "that an interpreter call fails exactly as documented.")

C("P09", "check_c:p09", "abstract interpretation of the compiled C (LLVM IR) to a fixpoint, compared symbol by symbol with a reference transducer",
  "Covers every text length and every number of buffer growths, for all present/absent combinations of the dialect characters; characters are abstracted to classes. Trusts clang's lowering, the models of the interpreter calls, and that the dialect characters differ from each other and from line ends.")
C("P10", "check_c:p10", "abstract interpretation of the compiled C (LLVM IR): every path over every abstract symbol string of bounded length",
  "Decided from the source without running it: symbols are quote or any other; every string up to length 16 (20 thorough) and strings with up to 257 closed blocks stand for every length. Trusts clang's lowering and the models of the interpreter calls.")

_TP = "abstract interpretation of the package's compiled Python functions over symbolic inputs, with scenario obligations checked on every path"
_NP = ("Decided from the source without importing it: every path of the analysed functions through the scenario is followed, input texts, rows and dialect characters are symbols. "
       "Trusts the models of builtins and library calls in vp/pymodels.py; %s")
C("P11", "check_py:p11", _TP, _NP % "sources of 0 to 3 rows and three consecutive uses stand for every number.")
C("P12", "check_py:p12", _TP, _NP % "the csv engine and the C parser are replaced by recorders of the arguments they are given.")
C("P13", "check_py:p13", _TP, _NP % "json text is modelled as the values that were encoded.")
C("P14", "check_py:p14", _TP, _NP % "characters are ordered by an uninterpreted total order.")
C("P15", "check_py:p15", _TP, _NP % "the scenarios of the other checks and some of its own stand for every use; elements that the package adds to private attributes (leading underscore) of its own objects are not looked at.")
C("P16", "check_py:p16", _TP, _NP % "the inner steps of detection are replaced by steps that return anything or fail; every place that can change the limit must lie in an analysed function.")
C("P17", "check_py:p17", "abstract interpretation of two detections of one sample in one run (self-composition), with every answer the interpreter leaves open chosen anew", _NP % "fixed samples stand for every sample, equal scores being imposed on chosen sets of dialects; of the sets iterated in one detection one at a time (two in the thorough tier) is iterated in another order, sets of more than four members in the reversed and the rotated orders.")
C("P18", "check_py:p18", _TP, _NP % "both detection methods are replaced by recorders.")
C("P19", "check_py:p19", _TP, _NP % "samples of up to two unknown characters among known ones stand for every sample; scores and tie breaking are replaced by every outcome.")
C("P20", "check_py:p20", _TP, _NP % "parsing is replaced by parses with every relevant outcome; 0 to 7 dialects stand for every number.")
C("P21", "check_py:p21", _TP, _NP % "the two scores are symbols ordered by an uninterpreted total order, a type score lying in (0, 1]; 0 to 4 candidates stand for every number.")
C("P22", "check_rx:p22", _TP, _NP % "json.loads fails with JSONDecodeError, ValueError or RecursionError or succeeds; a text is one symbol, so what its tests say about each other is not used.")
C("P23", "check_rx:p23", "position automata of the patterns evaluated from the syntax trees, searched for loops that read one text in two ways",
  "Decided from the source without running it: every pattern given to re or regex. Trusts that exponential time comes from exponentially many ways through the pattern; polynomial backtracking is not claimed.")
C("P24", "check_rx:p24", _TP + "; equality of regular languages by exploring the product automaton",
  "Decided from the source without running it: what each path of the recogniser asks of the text is a regular language; the union over the accepting paths is compared with the documented language over all texts whose digits are ASCII. Trusts the translation of the patterns into automata.")
C("P25", "check_py:p25", _TP, _NP % "files of 0 to 3 lines stand for every number; the parser, detection and pandas are replaced by recorders.")
C("P26", "check_py:p26", _TP, _NP % "the command line framework, the file system, detection, the parser and pandas are replaced by recorders.")
C("P27", "check_py:p27", _TP, _NP % "a modelled file system in which every step may fail once stands for the real one; every place that opens a file must lie in an analysed function.")
C("P28", "check_py:p28", _TP, _NP % "files of 0 to 3 lines stand for every number; moving a file is one step that happens or fails.")
C("P29", "check_py:p29", _TP, _NP % "1 to 3 inputs and files of 0 to 3 rows of 0 to 3 cells stand for every number.")
C("P30", "check_py:p30", _TP, _NP % "the command line framework, the file system and detection are modelled.")
C("P31", "check_py:p31", _TP, _NP % "json.dumps and repr are known to yield literals of the strings they are given.")
C("P32", "check_py:p32", _TP, _NP % "0 to 4 rows of 0 to 3 cells and 0 to 3 mappings stand for every number.")
C("P33", "check_py:p33", _TP, _NP % "the csv engine and the C parser are replaced by engines that fail.")
C("P34", "check_py:p34", _TP, _NP % "0 to 2 rows of 0 to 3 cells and 0 to 2 field names stand for every number.")
C("P35", "check_py:p35", _TP, _NP % "1 or 2 field names and rows stand for every number.")
C("P36", "check_py:p36", _TP, _NP % "samples of up to 2 unknown characters among known ones stand for every sample; URLs are removed by a recorder; encoding and decoding with one codec gives the text back.")
C("P37", "check_py:p37", _TP, _NP % "samples with up to three unknown characters among known ones stand for every sample; the known ones fix the places of the rows and quotes.")
C("P38", "check_py:p38", _TP + "; import closure over the syntax trees", _NP % "versions are compared by packaging.version.Version.")
C("P39", "check_py:p39", _TP, _NP % "files of 0 to 3 full blocks stand for every number.")
C("P40", "check_py:p40", "names bound by the package initialisation (abstract interpretation of its module code) and signatures from the syntax trees, compared with README, docs and docstrings", "Decided from the source without importing it. The documentation is taken at its word: what README.md, docs/*.rst and the Parameters sections of docstrings name must exist.")
C("P41", "check_py:p41", _TP, _NP % "tables of up to 2 columns and 4 rows of chosen cells stand for every table; detection and parsing are replaced by recorders.")
C("P42", "check_py:p42", _TP, _NP % "abstractions up to length 6 and samples of up to 4 rows and 4 cells stand for every length; the abstraction itself is decided by P09 and P10.")

NOT_APPLICABLE = {
    "P90": "Round-trip equality over all tables quantifies over runtime values crossing an external writer (_csv) and this parser; no static argument in reach bounds it. The parser half is decided exactly by P01-P05, the writer's arguments by P12, P32 and P35.",
    "P91": "Detection accuracy is a statistical statement about files in the wild; nothing in the shape of the code decides it. Structural parts (provenance, selection, determinism) are decided by P17-P21.",
    "P92": "A time bound over all samples is a runtime quantity. The one structural necessary condition, absence of exponential backtracking in the patterns, is decided by P23.",
    "P93": "Equality with pandas' own parser depends on code outside the repository. The arguments handed to pandas are decided by P25 and P26.",
}
PENDING = {}
