#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  One entry per property; a property is claimed when
checks/<id>.py exists."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "src/core/c/"
L = "src/library/"
P = L + "private/"
PRE = "src/core/s/prelude.min"

def p(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                             **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                             observe_at=observe, hook_needed=None)), dict(technique=technique, note=note)

PROPS = [
p("C01", "Core programs evaluate to the values their meaning prescribes",
  "For every well-formed program of core forms (literals, quote, variables, if, begin, set!, define-values, lambda and case-lambda with rest arguments, let-values, letrec-values, values, call-with-values, apply and procedure calls), the values it yields, the effects it performs and the order of those effects are the ones lexical scope and left-to-right call-by-value evaluation prescribe. This holds for any nesting, closure capture and mutation of captured variables, recursion, shadowing, number of arguments and number of values; the compiler's optimisations and the evaluator's register, environment and stack handling are never observable. A program that calls with the wrong number of arguments, returns the wrong number of values, applies a non-procedure or reads an unbound variable ends with an error report instead.",
  ["programs"], "all finite programs of core forms over the core primitives",
  "The jit and prims tests evaluate about 200 fixed one-line expressions; the space is programs, and the compiler's passes interact.",
  [C+"eval.c", C+"jit.c", C+"jitopt.c", C+"jitanalyze.c", C+"jitcompile.c", C+"jitprims.c", C+"env.c", C+"frame.c"],
  [("closure and constant-lifting passes", C+"jitopt.c"), ("free/bound variable analysis", C+"jitanalyze.c"), ("instruction selection and branch resolution", C+"jitcompile.c"), ("instruction loop", C+"eval.c")],
  ["value printed for every top-level form", "output of tracing effects", "error report and exit status"],
  "reference-model monitor: random core programs run on the real evaluator (ASan/UBSan and -O2 builds), every value, trace event and error kind compared with an independent interpreter",
  "exploration: holds on the generated programs; trusts the reference interpreter in lib/refeval.py"),
p("C02", "No program, file or input makes the runtime access memory it must not",
  "Whatever program it runs and whatever bytes it reads as source, data or standard input, the interpreter never reads or writes outside an object's storage, never uses an uninitialised value to decide anything, never executes undefined behaviour of C (fixnum wrap-around excepted), and never ends by a signal. Programs that are wrong end with an error report and status 1. (Nesting deep enough to exhaust the C stack and exhausted memory are excepted.)",
  ["programs", "inputs"], "all programs, valid or not, and all byte strings given to the reader, the evaluator, the FASL reader and every primitive",
  "The tests run valid programs on an uninstrumented build, where an overrun or an uninitialised read is normally silent.",
  [C+"eval.c", C+"prim.c", C+"read.c", C+"fasl.c", C+"check.c", C+"object.c", C+"symbol.c", C+"hashtable.c", C+"print.c"],
  [("syntax check ahead of compilation", C+"check.c"), ("stack growth", C+"eval.c"), ("argument checks of public procedures", PRE), ("object layout macros", "src/core/minim.h")],
  ["AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer reports", "termination by signal"],
  "AddressSanitizer+UBSan and MemorySanitizer builds with one malloc block per object, driven by mutated sources, hostile calls, deep recursion and fault-injected files",
  "exploration: no report on the executions driven; a clean sanitizer run is not memory safety"),
p("C03", "Tail calls run in bounded space and non-tail recursion is bounded only by memory",
  "A loop made of calls in tail position (through if, begin, let-values, letrec-values, lambda and case-lambda bodies, apply, call-with-values consumers, and the derived cond, case, and, or, when, unless, let and do forms) runs in space that does not grow with the number of iterations. Recursion that is not in tail position, and calls or multiple values with any number of arguments that memory can hold, work to any depth: the evaluation stack grows and shrinks as needed without losing or corrupting a pending frame, argument or value.",
  ["programs", "histories"], "all tail-position shapes and iteration counts, all recursion depths and argument counts up to available memory",
  "No test iterates more than a few thousand times or recurses more than a few hundred frames, so stack growth hardly ever happens and space use is not observed.",
  [C+"eval.c", C+"frame.c", C+"jitcompile.c", C+"thread.c", PRE],
  [("tail flag of the compiler", C+"jitcompile.c"), ("stack segments grow and shrink", C+"eval.c"), ("argument and value buffers grow", C+"thread.c")],
  ["bytes of live and allocated memory against the number of iterations", "results of deep recursions", "sanitizer reports"],
  "resource monitor: allocation and peak-memory counters at N and 4N iterations of generated tail-call shapes, plus deep-recursion and many-argument workloads with computed answers under ASan",
  "exploration: shapes and depths generated; space judged by growth between N and 4N"),
p("C04", "Public procedures return what they document or report a clean error",
  "Every public procedure of the core, applied to any number of arguments of any types, either returns a result its contract allows or raises an error that names the procedure; it never returns a result for arguments outside its contract, never rejects arguments inside it, and never crashes, hangs or leaves the interpreter unusable. An argument of the wrong type is reported as a contract violation that names what was expected and shows the value given; an index out of range is reported with the range; a wrong number of arguments is reported as an arity error.",
  ["inputs"], "all public core procedures, all tuples of argument values of every type including boundary values",
  "The tests call each procedure on a few valid arguments and hardly test a rejection.",
  [PRE, C+"prim.c", C+"error.c"],
  [("argument checks of the wrappers", PRE), ("arity checks", C+"eval.c")],
  ["value or error report of each call", "exit status", "sanitizer reports"],
  "contract monitor: every public procedure called on tuples drawn from a pool of values of every type (ASan/UBSan build); acceptance, result and error report compared with a contract table",
  "exploration: argument pool of about 60 values, all single and pairwise type combinations; trusts the contract table in lib/contracts.py"),
p("C05", "The reader turns text into exactly the datum the syntax denotes",
  "For every text in the datum syntax, reading yields exactly the data the text denotes: whitespace, comments (line, block, nested, datum), bracket styles, quote abbreviations (' and #'), dotted pairs, vectors, boxes, characters, strings with escapes, numbers and symbols included, and the syntax objects the library's reader returns carry exactly the datum. Text that is not in the syntax, including text that ends inside a datum, is reported as an error with status 1; no byte string makes a reader crash, hang, misparse or accept it silently. The reader of the core and the one the module system uses agree.",
  ["inputs"], "all byte strings, as a file and as a string port, read by either reader",
  "Tests read the project's own well-formed sources.",
  [C+"read.c", L+"read.min", PRE],
  [("recursive descent reader of the core", C+"read.c"), ("reader of the library", L+"read.min"), ("tokens up to 4095 characters", C+"read.c")],
  ["the written form of every datum read", "the datum of every syntax object", "error report and exit status"],
  "reference-model monitor: generated and mutated texts read by both real readers (ASan/UBSan), data and rejections compared with an independent parser",
  "exploration: generated texts; trusts the reference parser; dot placement corner cases that both project readers accept are not judged"),
p("C06", "What write prints, read reads back as an equal value",
  "For every value built from fixnums, booleans, characters, strings, symbols, pairs, vectors, boxes, the empty list and quoted syntax, writing it and reading the text yields an equal value of the same type at every position, by any of the writers (the writer of the core, write, write to any port, format with ~s) and either reader. display prints characters and strings raw and is otherwise the same. All printers terminate and print the whole value, whatever its size.",
  ["inputs"], "all finite acyclic data of readable types, including strings and characters with any byte",
  "The tests print a handful of values and compare text.",
  [C+"print.c", PRE, C+"read.c"],
  [("writer of the core", C+"print.c"), ("writer of the prelude", PRE)],
  ["printed text", "value read back, compared by the model and by equal?"],
  "round-trip monitor over random data: real writer to real reader, values compared structurally and with the generating model",
  "exploration: random data up to a few hundred nodes"),
p("C07", "FASL data reads back equal, and corrupted FASL data is rejected cleanly",
  "Writing any acyclic value of the serialisable types (fixnums, booleans, characters, strings, symbols, pairs, vectors, records and record types, the end-of-file, void and null objects) in FASL form and reading it yields an equal value (a record comes back with a type of the same description and the same field values), several values in one stream come back in order with nothing left over, and symbols come back identical to the interned symbol. A value of any other type is refused with an error report. Bytes that are not a complete FASL value, however damaged or truncated, are reported as malformed with status 1: never a crash, a hang, an unbounded allocation or a value conjured from nothing.",
  ["inputs", "fault_sequences"], "all serialisable values; all truncations and byte corruptions of their encodings",
  "Three tests round-trip about 40 fixed values and none damages one.",
  [C+"fasl.c", PRE],
  [("variable-length sizes and tags", C+"fasl.c")],
  ["written form of the value read back", "stream position", "error report, exit status, allocation volume"],
  "round-trip and fault-injection monitor: random values through the real writer and reader (ASan/UBSan), then truncated and bit-flipped encodings",
  "exploration: random values, single and multiple corruptions"),
p("C08", "Equal names are one symbol, and generated names never capture",
  "Any two ways of obtaining a symbol of the same name (reading it in any context, quoting it, string->symbol, intern during loading, a FASL file, the expander) give the same object under eq?, and symbols of different names are different, however many symbols exist and in whatever order they were created. symbol->string and string->symbol are inverse. The temporaries the compiler generates are never confused with a program's own names, even names spelt the same.",
  ["histories"], "all sequences of interning operations, including those that resize the table repeatedly",
  "Tests use a few hundred names and never check identity after growth.",
  [C+"symbol.c", C+"read.c", PRE],
  [("intern table with resizing", C+"symbol.c")],
  ["eq? between all pairs of symbols obtained", "printed names"],
  "history monitor: long random interning histories from every source, identity classes compared with a name map",
  "exploration: histories of up to tens of thousands of names",
  [("symbol table", "name to unique symbol", C+"symbol.c")]),
p("C09", "Hashtables behave as finite maps under every history",
  "After any sequence of hashtable operations (set, delete, update, clear, copy, ref with and without a default, contains, count, keys, length) a table holds exactly the entries of the finite map that the same history builds under its key equivalence: no entry is lost, duplicated or resurrected, a copy is independent of its original, and the size matches. This holds across growth, colliding hash values, keys of every type, and tables with a caller's own hash and equivalence procedures, including ones that use other tables themselves.",
  ["histories", "inputs"], "all operation sequences over keys of all types on eq, equal and custom tables",
  "One test runs a fixed list of operations with a handful of keys; none deletes and grows under collisions.",
  [C+"hashtable.c", PRE],
  [("bucket vector with growth", PRE), ("eq hashtable of the core", C+"hashtable.c")],
  ["answers to every query in the history", "full content after the history"],
  "history + executable model: random and collision-heavy operation histories replayed against a Python map, every answer compared",
  "exploration: thousands of histories of tens to hundreds of operations",
  [("buckets", "association lists indexed by hash", PRE)]),
p("C10", "equal?, eqv? and eq? are the specified equivalences and equal values hash alike",
  "equal? holds exactly between values of the same shape with equal leaves (numbers, characters, strings, symbols, pairs, vectors, boxes, hashtables with the same entries whatever their insertion history, and records by their type's equality procedure, by identity without one), eq? exactly between identical objects and equal immediate values, and each is reflexive, symmetric and transitive. Whenever two values are equal?, equal-hash gives them the same number, and eq? values have the same eq-hash; hashing does not change over time or with unrelated mutation. An equality or hash procedure installed for a record type is honoured wherever records occur, also nested.",
  ["inputs"], "all pairs and triples of acyclic values of all types",
  "Tests compare fixed small values.",
  [C+"object.c", C+"hashtable.c", PRE, C+"record.c"],
  [("structural recursion of equal?", PRE), ("equal-hash", PRE)],
  ["verdict of every pair", "hash values of equal pairs"],
  "pairwise monitor: generated value families with known equivalence classes; real verdicts and hashes compared",
  "exploration: generated families of a few dozen values each"),
p("C11", "List, vector, string and character procedures compute their defined results",
  "For all valid arguments, the list procedures (construction, accessors, length, append, reverse, list-ref, map, for-each, andmap, ormap, filter, foldl, foldr, member, remove, assoc, index-of and so on), the vector procedures, the string procedures and the character procedures return the result their definition gives, in order, for any length and any number of lists; procedures given to them are called exactly once per element in order. None modifies its arguments unless it is documented to, and results share no structure with mutable arguments unless documented.",
  ["inputs"], "all argument lists, vectors, strings and indices, including empty ones and boundary indices",
  "Tests use a few small arguments per procedure.",
  [PRE, C+"list.c", C+"string.c", C+"vector.c", C+"char.c", P+"list.min"],
  [("library procedures in the prelude", PRE)],
  ["result of each call", "trace of calls to the procedure argument", "arguments after the call"],
  "model-based monitor: random calls compared with Python definitions; call traces and argument preservation observed",
  "exploration: random calls"),
p("C12", "Fixnum arithmetic and comparison are exact modulo the machine word",
  "For all fixnums, +, -, *, add1 and sub1 of any number of arguments give the mathematical result reduced to the signed machine word, / , quotient-like division, remainder and modulo give the results of their definitions with the sign rules documented, and =, <, >, <= and >= of any number of arguments hold exactly when every adjacent pair is so ordered. The sign and parity predicates agree with the values, a division by zero is an error, and number->string and string->number are inverse for every fixnum.",
  ["inputs"], "all fixnum tuples, including the extreme values",
  "Tests use small numbers.",
  [C+"number.c", PRE, C+"prim.c"],
  [("fixnum primitives", C+"number.c"), ("n-ary wrappers", PRE)],
  ["result of each call"],
  "model-based monitor: random and boundary operands compared with Python integers",
  "exploration: random and boundary tuples"),
p("C13", "Environments and eval keep bindings separate and restore the caller's scope",
  "Evaluating an expression in an environment sees exactly that environment's bindings, and definitions and assignments made there change that environment only; a procedure keeps referring to the variables of the environment it was made in, wherever it is called; environment-symbols, environment-ref, environment-set! and copy-environment report, change and copy exactly those bindings, however many there are. After eval returns, or is abandoned because of an error that was handled, the caller's own lexical and top-level environment is what it was. Evaluations nest to any depth, inside procedures called by primitives and inside handlers.",
  ["histories", "programs"], "all sequences of definitions, assignments, lookups and nested evaluations over several environments",
  "No test evaluates in more than one environment.",
  [C+"env.c", C+"eval.c", PRE],
  [("environment frames and tables", C+"env.c"), ("eval in an environment", C+"eval.c")],
  ["answers to lookups in every environment after every step"],
  "history + executable model: random environment histories replayed against a model of nested maps",
  "exploration: random histories"),
p("C14", "Records keep their fields, type identity and inheritance",
  "An instance of a record type answers its type's predicate and those of all ancestors and no others; each accessor and mutator reads and changes exactly its own field, at any position of any inheritance chain; constructors take the fields in order with the ancestors' first (or what the protocol prescribes). Sealed types cannot be extended, opaque instances are not record?, an accessor applied to anything else is an error, descriptors report what they were made with, and types made twice are different unless they share a uid.",
  ["inputs", "histories"], "all type hierarchies, field counts and histories of construction, access and mutation",
  "Tests define a few record types with a couple of fields.",
  [C+"record.c", PRE, P+"record.min"],
  [("descriptor layout and field offsets", C+"record.c"), ("constructors, accessors", PRE), ("define-record-type", P+"record.min")],
  ["answers of predicates, accessors and reflection after every step"],
  "history + executable model: random type hierarchies and histories compared with a model",
  "exploration: random hierarchies and histories"),
p("C15", "Ports deliver exactly the characters written or available, in order",
  "Characters written to a string port or a file come back from it in order, unchanged and complete; reading with read-char, peek-char and read consumes exactly what it returns, peek never consumes, and the end of the input yields the end-of-file object again and again. Ports are independent of each other; an operation on a closed port or in the wrong direction is an error; closing twice is harmless.",
  ["histories", "inputs"], "all sequences of port operations over several ports and all byte contents",
  "One test writes one string to one port.",
  [C+"io.c", PRE, C+"print.c"],
  [("port objects over FILE streams", C+"io.c")],
  ["the result of every operation", "content of files and string ports", "standard output"],
  "history + executable model: random port histories replayed against a model of byte streams",
  "exploration: random histories"),
p("C16", "Errors are reported once, with their parts, and end or resume as prescribed",
  "An error raised by error, raise or a primitive reaches the innermost handler in effect exactly once with the raised object; without one it is printed once to the error output, with who, message and irritants, and the process ends with status 1, never 0, and nothing after it runs. Condition objects answer their predicates and accessors with what they were made with. Output already printed is not lost, exit n ends with status n, and in a handler's scope, during and after handling, the interpreter's state (handlers, environments, current directory) is consistent.",
  ["programs", "fault_sequences"], "all programs that raise, at all points, with and without handlers, in files, modules, the REPL and nested evaluation",
  "Tests exit 0; only a few expect an error.",
  [C+"error.c", PRE, "src/boot/c/minim.c", C+"eval.c"],
  [("current error handler and default handler", PRE), ("C errors", C+"error.c"), ("exit and REPL", "src/boot/c/minim.c")],
  ["order of printed events", "error text", "exit status"],
  "trace monitor: generated programs with errors injected at every step; event traces, error text and exit status compared with a model",
  "exploration: generated programs; the handler semantics judged are those of the prelude"),
p("C17", "Derived forms expand to programs with the meaning they are defined to have",
  "Programs written with the derived forms of the library (define, let, let*, letrec, named let, cond, case, and, or, when, unless, do, internal definitions, delay and force) behave as those forms are defined, whatever they contain and however they are nested: same values, same effects, same order, each subexpression evaluated exactly as often as the definition says; this is claimed of programs that do not rebind the names of the forms or of the base procedures their expansions use (the expander is not hygienic). Malformed uses are syntax errors that name the form.",
  ["programs"], "all nestings of derived forms over core expressions that keep the forms' own names bound",
  "Each form is tested on a few examples in isolation.",
  [L+"expander.min", P+"let.min", P+"cond.min", P+"case.min", P+"and-or.min", P+"when-unless.min", P+"do.min", P+"define.min", L+"base.min"],
  [("macro definitions", P), ("expander", L+"expander.min")],
  ["value and trace of each program", "syntax error reports"],
  "reference-model monitor: random programs over the derived forms run by the real expander and evaluator, traces compared with an independent interpreter",
  "exploration: generated programs; hygiene of user macros is not claimed (the expander renames by name only)"),
p("C18", "Modules run once, in dependency order, and export exactly what they say",
  "For every acyclic graph of modules, importing its root runs every reachable module's body exactly once, after all of the modules it imports; a module sees exactly the names its imports export and its own, importers see exactly the exported names with the values (or macros) they are bound to, and re-exports and (all) exports pass them on. Paths are resolved relative to the importing file, several routes to and spellings of the path of one file give one instance, and an unknown file, unbound identifier, variable defined twice or unexported name is an error with status 1.",
  ["configurations", "programs"], "all acyclic import graphs over files and directories and all export sets",
  "Tests import the base library from one file each.",
  [L+"module.min", L+"expander.min", L+"read.min"],
  [("module cache keyed by path", L+"module.min"), ("export and import handling", L+"expander.min")],
  ["order of body traces", "values of imported names", "rejections"],
  "trace monitor: generated module graphs on disk, run order, visibility and values compared with a model of the graph",
  "exploration: generated graphs of up to a dozen modules"),
p("C19", "The library rebuilds the boot file, and the rebuilt system behaves identically",
  "Running the boot-file generator on the library's own sources succeeds and is deterministic; the system started from the generated boot file regenerates a byte-identical boot file, and runs programs with results identical to those of the system that generated it.",
  ["configurations", "programs"], "the bootstrap chain of the current sources, over all later generations and all programs",
  "The boot-file test only checks that generation exits with status 0.",
  [L+"gen-boot.min", L+"expander.min", L+"module.min", "src/boot/s/boot.min", PRE],
  [("flattening of the library modules into one file", L+"gen-boot.min")],
  ["bytes of the second and third generation", "behaviour of each generation on a program corpus"],
  "bootstrap monitor: repeated generations with the real system under varied directories, environments and address layouts, compared byte by byte up to the fixpoint, and behaviour of both systems on a corpus of programs",
  "exploration: the fixpoint is decided for the current sources; behaviour over the programs run"),
p("C20", "Pattern macros match and instantiate as their patterns and templates say",
  "For every pattern built from literals, pattern variables, wildcards, lists, dotted tails, vectors and ellipses at any depth, with patterns after an ellipsis, syntax-case and syntax-rules select the first clause whose pattern matches and whose fender holds, bind each variable to exactly the parts it matched, and build exactly the template's instance. A use that no clause matches is a syntax error; ill-formed patterns and templates that misuse ellipsis depth are rejected. (Pattern variables are taken not to be named like identifiers the generated matcher uses, since the expander is not hygienic, and variables repeated together to have as many parts as each other.)",
  ["inputs", "programs"], "all patterns, templates and inputs of the pattern language",
  "One test file tries a few dozen fixed patterns.",
  [P+"stxcase.min", P+"stxcase-extra.min", P+"template.min", P+"template-utils.min", P+"stx.min", C+"syntax.c"],
  [("pattern compiler", P+"stxcase.min"), ("template compiler", P+"template-utils.min")],
  ["clause chosen", "datum of the instance", "rejections"],
  "reference-model monitor: random patterns, inputs and templates run by the real macro system, compared with an independent matcher",
  "exploration: random patterns"),
p("C21", "Sorting, sets, enumerations, promises and generics obey their laws",
  "sort returns a permutation of its input in order, stably, for lists and vectors and any strict weak order, leaving the input alone; sets obey the laws of finite sets under union, intersection, difference, membership, addition and removal without disturbing their arguments; enumerations map members and indices both ways, and enum sets obey the set laws over their universe. Promises compute at most once and give the same value at every force, and the accessor of a generic's method gives, for a record of each type, the procedure that type supplied last for that method, and rejects records of types that supplied none.",
  ["inputs", "histories"], "all inputs and operation histories of the library's data structures",
  "Tests check a few fixed values of each.",
  [P+"sort.min", P+"set.min", P+"enum.min", P+"promise.min", P+"generics.min", P+"list.min", P+"string.min"],
  [("merge sort", P+"sort.min"), ("hashtable-backed sets", P+"set.min")],
  ["results of every operation", "counts of evaluations"],
  "model-based monitor: random inputs and histories compared with Python models and algebraic laws",
  "exploration: random inputs and histories"),
p("C22", "The Minim collector frees exactly the unreachable blocks and keeps the rest intact",
  "Under any history of allocation, pointer updates, reallocation, explicit freeing, registered roots and destructors, and collections, the Minim collector never frees, moves or changes a block reachable from a root, the stack or a registered region; reclaims unreachable blocks when collecting; runs each destructor exactly once, when its block is released; and its counts of blocks and bytes match the live set. Allocation requests that cannot be met return null.",
  ["histories"], "all histories of collector operations over all object graphs",
  "No test of the suite runs this collector.",
  ["src/gc/minim-gc/gc.c", "src/gc/minim-gc/gc-impl.c", "src/gc/minim-gc/gc.h", "src/gc/gc.h"],
  [("hash table of blocks", "src/gc/minim-gc/gc-impl.c"), ("mark and sweep", "src/gc/minim-gc/gc-impl.c")],
  ["block contents", "destructor calls", "statistics after each collection", "sanitizer reports"],
  "history + executable model: random operation histories on the real collector (ASan and plain) with patterned blocks and a shadow reachability model",
  "exploration: random histories; conservative retention from stack garbage is tolerated up to a bound"),
p("C23", "Garbage collection is invisible to programs",
  "The moments at which the collector runs never change what a program computes or prints: every object a running program can still use (values held in variables, pending frames, argument and value buffers, handlers, compiled code, the symbol table, ports and objects held only by C code in the middle of an operation) stays intact across any collection. A program gives the same output and status with a collection forced at any allocation as with none.",
  ["schedules", "programs"], "all placements of collections in all executions",
  "In the tests collections happen at a few unpredictable points, if at all.",
  [C+"eval.c", C+"thread.c", C+"symbol.c", C+"io.c", C+"object.c", C+"global.c", "src/gc/gc.h"],
  [("roots and reachability through the thread context", C+"thread.c"), ("atomic allocation only for pointer-free data", "src/core/minim.h")],
  ["output and status under different collection schedules"],
  "schedule-injection monitor: the same programs with a full collection forced every k allocations and freed atomic storage poisoned, outputs compared with the uncollected run",
  "exploration: collection periods from 1 to a few hundred allocations over generated programs"),
p("C24", "load, current-directory and path procedures resolve files consistently",
  "A file loaded by a relative path is resolved against the current directory, files it loads in turn against its own directory, and when load returns, or is abandoned because of an error that was handled, the current directory is the one before, whatever the nesting. load evaluates every form of the file in order and yields the last form's value. build-path, split-path and the other path procedures agree with the path syntax for all inputs.",
  ["histories", "configurations"], "all directory trees, load nestings, and path strings",
  "Tests load files from one directory.",
  [C+"system.c", PRE, P+"path.min", L+"module.min"],
  [("directory of the thread context", C+"system.c"), ("load", PRE)],
  ["current directory before, during and after", "order of traces"],
  "trace monitor: generated directory trees with nested loads and injected errors, compared with a model; path algebra against Python",
  "exploration: generated trees"),
p("C25", "Malformed core forms are rejected before anything of the form runs",
  "Every form that violates the syntax of the core language (wrong number of subforms, improper lists, non-symbol formals, bad binding clauses, misplaced keywords, at any nesting depth) is reported as bad syntax, naming the offending form (or its improper body), with status 1, both at top level and in eval, and before any effect of the enclosing top-level form takes place. No well-formed form is rejected.",
  ["programs"], "all S-expressions",
  "Tests contain well-formed programs only.",
  [C+"check.c", C+"eval.c"],
  [("syntax checker", C+"check.c")],
  ["error report naming the form", "absence of effects", "acceptance of well-formed forms"],
  "reference-model monitor: random well-formed and mutated forms, acceptance compared with an independent grammar (ASan/UBSan build)",
  "exploration: generated forms"),
p("C26", "Procedures report their arity and name truthfully",
  "For every procedure, built in or closed over any lambda or case-lambda, the reported arity is in normal form (a count, or increasing counts that end with #f when every count from the last on is accepted) and contains exactly the argument counts the procedure accepts: a call with n arguments is an arity error if and only if n is not in the reported arity, and the error shows that arity and n. Renaming changes the name only: the renamed procedure behaves like the original and shares its variables, the original keeps its own name. A procedure without a name that a top-level definition binds reports the defined name from then on, whatever else binds it later.",
  ["programs", "inputs"], "all procedures and all argument counts",
  "Tests check the arity of a few case-lambdas.",
  [C+"procedure.c", C+"jitcompile.c", C+"eval.c", PRE],
  [("arity normal form", C+"procedure.c"), ("arity checks in code", C+"jitcompile.c")],
  ["reported arity", "which calls raise arity errors"],
  "consistency monitor: generated and built-in procedures, reported arity compared with the calls accepted and with a model",
  "exploration: argument counts up to about ten"),
]

def main():
    claimed, na = [], []
    with open(ROOT + "/properties.jsonl", "w") as f:
        for pr, _ in PROPS:
            f.write(json.dumps(pr) + "\n")
    for pr, m in PROPS:
        i = pr["id"]
        if os.path.exists("%s/checks/%s.py" % (ROOT, i.lower())):
            claimed.append(dict(property=i, quick_cmd="python3 checks/%s.py quick" % i.lower(),
                                thorough_cmd="python3 checks/%s.py thorough" % i.lower(),
                                technique=m["technique"], level="exploration", level_note=m["note"]))
        else:
            na.append(dict(property=i, reason="check not built yet"))
    json.dump(dict(version=1, setup_cmd="python3 tools/setup.py",
                   checks=claimed, not_applicable=na,
                   notes="No hooks in /repo: builds are made from a copy of its sources with a replaced GC header."),
              open(ROOT + "/MANIFEST.json", "w"), indent=1)
    print(len(claimed), "claimed", len(na), "not")

if __name__ == "__main__":
    main()
