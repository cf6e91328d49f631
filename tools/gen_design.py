#!/usr/bin/env python3
"""Writes DESIGN.md from design.tmpl.md, the notes below, known_findings.json and the planted bugs."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
"C01": ("Random core programs (`lib/gencore.py`: type-directed expressions, closures and mutation, multiple values, loops, case-lambda, apply, eval, shadowing, deep scopes, idioms of derived forms, "
        "injected errors) run in `evalw` mode on the ASan and the plain build; every top-level value, every trace line and the kind of the final error are compared with the reference interpreter.",
        "About 9000 programs a quick run, 15-300 nodes each.", "Tests sample single forms; the compiler's register, frame and environment shortcuts interact only in combinations."),
"C02": ("Sequences of calls of every public procedure, half of them aimed at its types, on shared mutable values, with callbacks that modify what is traversed and handlers that return; random core programs; malformed forms; "
        "random and damaged texts, standard input and FASL bytes; under ASan+UBSan (object per block) and MSan.  Any sanitizer report, signal or hang is a violation.",
        "About 4500 cases per build.", "The test suite runs no sanitizer, and collectors hide overflows."),
"C03": ("Loops of 10^5-10^6 iterations in every tail position (if, begin, let-values, letrec-values, case-lambda, apply, call-with-values, eval, derived forms) under a memory limit derived from a short run of the same loop, and non-tail recursion, "
        "argument lists and multiple values up to 10^5-10^6 with frames that carry checked values across every stack segment boundary.", "Sizes chosen randomly around segment boundaries.", "Tests recur at most a few hundred deep."),
"C04": ("Every public procedure with 0-6 arguments from pools of every type; result or the exact text of the error report (contract, range, missing key, arity, closed port ...) compared with `FullInterp`; the unmodelled ones must end cleanly and leave the interpreter usable.",
        "About 25000 calls.", "Tests call with good arguments."),
"C05": ("Texts rendered from random data with every lexical freedom, the same damaged, random fragments and bytes; file reader, string-port reader and library reader against an independent parser (`lib/rdr.py`).", "About 10000 texts; also with the regenerated boot file when the library changed.", "The syntax is infinite."),
"C06": ("Random values made by calls, printed by every writer to every kind of port, read back by both readers; texts compared with the model's and values with equal? and the model.", "Hundreds of values per run, to some thousand nodes.", ""),
"C07": ("Streams of serialisable values and records; every kind of unserialisable value; every truncation of short streams; damaged and invented byte strings, whose decoding is compared with an independent decoder.", "Thousands of streams, ASan and plain, memory limit.", ""),
"C08": ("Symbols obtained from every source in one run, identity of every pair; tables grown several times with every name looked up again; programs whose variables look like compiler temporaries.", "To 50000 symbols.", ""),
"C09": ("Histories of table operations over colliding and ordinary universes of keys, custom procedures that use tables themselves, copies; whole contents compared with a finite map every few operations.", "Histories of 20-600 operations, growth loops to 20000 keys.", ""),
"C10": ("Groups of values many of which are equal by different routes; full matrices of eq? and equal? against the model; hash agreement before and after unrelated work.", "Groups of 10-30 values.", ""),
"C11": ("Histories over shared mutable lists, vectors and strings, the whole store printed after each operation; higher-order calls trace their calls.  Core procedures on ASan and plain, the library's on plain.", "Lengths 0-2000.", ""),
"C12": ("Arithmetic on boundary and random fixnums, 0-8 operands, directly, through apply, nested; conversions.", "About 100000 calls against Python integers.", ""),
"C13": ("Programs over up to five environments (base, empty, copies, partial copies): definitions, assignment, closures that cross environments, evaluation nested in evaluation, callbacks and handlers, errors with returning handlers; "
        "a model in which a procedure made by top-level code belongs to the environment current at that moment; histories over environments of up to 3000 names; evaluations nested 4000 deep that alternate environments, with an error at the bottom.",
        "3000 programs, 60 histories.", "No test uses a second environment."),
"C14": ("Random trees of record types (depth to 10, to 60 fields each, sealed, opaque, same names): all accessors, mutators, predicates on all instances, histories with the store printed, descriptors, wrong uses; random define-record-type forms of the library with protocols, writers and equality methods.",
        "1100 core programs (7000 types), 260 modules.", ""),
"C15": ("Histories over several string and file ports: reads, peeks, datum reads, writes by every procedure, end of input repeated, closing, wrong directions; contents of files compared byte for byte with the model.", "", ""),
"C16": ("Programs that raise, handle, re-raise, exit and print; error text, status, order and completeness of output compared with the model.", "", ""),
"C22": ("harness/gcdrive.c links the collector of the tree (plain -O2, and ASan+UBSan) and performs seeded random histories of every public operation against a shadow heap: every block with its bytes, marker, destructor and root flag; nested stack frames with pointer slots; blocks held by one callee-saved register only; interior pointers, dangling words, odd sizes; allocation failures injected below the collector (--wrap=malloc); crowded tables that must grow and shrink with a third of the blocks roots; chains of 200000 blocks; garbage of many times the threshold. After every operation the accounting is compared, after every collection survivors, contents, destructor calls (each exactly once, contents intact when it runs) and statistics. A block that stale stack words keep is not a violation by itself, keeping blocks in most histories is.", "90 histories, about 200000 operations, in the quick tier; 2200 in the thorough one.", ""),
"C23": ("Programs of all other generators run under schedules of collections, from one at every allocation to one in hundreds of thousands, on three collectors: a conservative one written for this (quarantine: what it frees is filled with 0xDB and never handed out again, so any later use shows), the project's own minim-gc with AddressSanitizer (what it frees is really freed, so any later use is reported), and for whole runs of the command-line program from its first allocation on. Output, status and error report must equal those of the run without collections; the run must have freed something.", "About 440 programs x 3 schedules, 128 x 2 on minim-gc, the base library under 40 x 2.", ""),
"C24": ("Random trees of files and directories that load each other by relative paths, with errors that are handled; the sequence of evaluated forms, the current directory seen by each and the values of load are compared with the model.", "", ""),
"C25": ("Random forms and mutations of forms, behind an effect, at top level, in loaded files, at the REPL and in eval; acceptance compared with an independent grammar; no effect of a rejected form may show and the report must quote the form.", "About 10000 forms.", ""),
"C17": ("Random programs that nest every derived form (internal definitions, named let, do, case, cond, and/or, promises) under names chosen to shadow one another are run by the real expander and evaluator; the same programs, translated to core forms by the definition of each form (lib/derive.py), are run by the reference interpreter, and values, traces of evaluated subexpressions and errors must agree. Malformed uses of every form, at random places of a module, must be rejected with a report that names the form before anything of the module runs.", "360 programs and 220 malformed uses in quick, 8,000 and 3,000 in thorough; about 40 s. If the library's sources are no known fixpoint of the bootstrap, everything is repeated on the regenerated system.", "A temporary that captures a user's variable only shows when the user picks that name: or, case and do all did."),
"C18": ("Random acyclic module graphs are written to nested directories; each body leaves a trace, uses what its imports export (constants, procedures, counters, boxes, macros), re-exports with plain and (all) exports; imports use relative, dotted and absolute spellings. The order of the traces, the values and the rejections (missing file, name not exported, unbound name, variable defined twice) are compared with a model of the graph; core-only graphs also go through the real command line.", "graphs up to a dozen modules plus deep chains; about 40 s", "Two routes to a module through different spellings of its path ran the body twice; the tests import one file each."),
"C19": ("The real generator runs three times in parallel with relative and absolute paths, from far directories, with other environments and with and without address randomisation: the files must be the same byte for byte, and an independent reader must find in them one definition per name. If the file is not the one the generator started from, systems are built on it and generate again (up to a third generation) until the fixpoint must be reached. A corpus (the project's library tests, programs of C17 and C20, rejected programs) runs on the tree's system and on the regenerated one (or on a second start of the same one) with equal output, report and status.", "3 to 5 generations of 40 s each, about 65 s; thorough: 7 generations and 3,000 programs", "The test of the generator looks at its exit status only."),
"C20": ("Random clauses of syntax-case, syntax-rules and with-syntax (literals, wildcards, dotted tails, vectors, ellipses up to depth 3 with patterns after them, fenders) are applied to inputs made from the patterns and to near misses; an independent matcher and instantiator says which clause is taken and what the instance is. Ill-formed patterns, templates, clauses and literals at random places must be rejected before anything of the module runs.", "700 programs with up to three inputs and 150 rejected definitions in quick, 14,000 and 2,500 in thorough; about 35 s", "The space of patterns is not sampled by the few dozen fixed ones of the test; patterns after an ellipsis in a vector never worked."),
"C21": ("Histories of sort (any strict weak order, watched by a counter that rejects strangers), sets, enumerations and enum sets, promises that count their evaluations, and generics are run in the real system, and every observable state is compared with a Python model after every operation.", "422 histories in quick; about 35 s", "Laws over all inputs and histories; each test checks a few fixed values."),
"C26": ("Random lambda and case-lambda procedures: arity in normal form, acceptance of 0-14 arguments, arity reports, names, renaming; every public procedure of core and library probed with 0-8 arguments.", "", ""),
}
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
out = []
for p in props:
    i = p["id"]
    claimed = os.path.exists(ROOT + "/checks/%s.py" % i.lower())
    n = NOTES.get(i)
    s = "### %s %s\n\n" % (i, p["title"])
    if not claimed:
        s += "Not claimed: no check is built for it yet" + (" (planned: " + n[0] + ")" if n else "") + ".\n"
    else:
        s += n[0] + "\n"
        if n[1]:
            s += "\n*Bounds and cost:* %s\n" % n[1]
        if n[2]:
            s += "\n*Why tests cannot settle it:* %s\n" % n[2]
    out.append(s)
kf = json.load(open(ROOT + "/known_findings.json"))
caught = json.load(open(ROOT + "/tools/caught.json"))
seeds = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    seeds.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "/"), caught.get(i, "not run")))
t = open(ROOT + "/tools/design.tmpl.md").read()
t = t.replace("@PROPS@", "\n".join(out)).replace("@NFIX@", str(len(kf["fixed"]))).replace("@SEEDS@", "\n".join(seeds))
open(ROOT + "/DESIGN.md", "w").write(t)
