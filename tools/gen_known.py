#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from /repo's fix commits (findings are kept)."""
import json, os, re, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("C18", "module.min gives"), ("C17", "and, or, case and do use|let, let\\*, letrec and cond"), ("C20", "syntax-case|template|ellips"), ("C23", "minim-gc keeps code"), ("C22", r"minim-gc"), ("C07", "FASL"), ("C02", r"character object|evaluator's stack|dd3a|table is resized"),
 ("C25", "syntax checker|syntax of an expression passed"), ("C13", "an environment does not report|eval in an env|evaluation within|environment-ref"),
 ("C01", r"multiple values|lambda expression to the wrong|call-with-values|case-lambda without|set!"),
 ("C26", "arity of a procedure|procedure-rename"), ("C12", "division|remainder|modulo|string->number|not fixnums"),
 ("C11", "string->list|integers of characters"), ("C04", "argument errors of make-string|index errors|hash function is"),
 ("C15", "port|write-char|eof object"), ("C14", "record"), ("C06", "prints a box|write_object|~~"),
 ("C10", "equal"), ("C09", "hashtable-update"), ("C24", "load restores|current-directory"),
 ("C08", "interning"), ("C05", "reader|tokens|datum|comments|escape|byte 255|vector")]
p = ROOT + "/known_findings.json"
old = json.load(open(p)) if os.path.exists(p) else {"findings": []}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], capture_output=True, text=True).stdout
fixed = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    s = s[4:].strip()
    c = next((c for c, r in MAP if re.search(r, s)), "C02")
    fixed.append("fixed: property=%s %s %s" % (c, h[:12], s))
json.dump(dict(findings=old.get("findings", []), fixed=fixed), open(p, "w"), indent=1)
