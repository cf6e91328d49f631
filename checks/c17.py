#!/usr/bin/env python3
import _p
import random, re
import vp, mon, core, derive
from sexp import *
from refeval import *

RULE = ("random programs that nest the library's derived forms, their names chosen so that they shadow one another, with a trace of the subexpressions evaluated, "
        "against the same programs translated by the forms' definitions and run by the reference interpreter; malformed uses of every form at random places; a case is one program")
S = Sym

# malformed uses: (form that the report must name, text); E stands for an expression, B for a body
BAD = [("let", x) for x in (
    "(let)", "(let x)", "(let ((x E)))", "(let ((x)) B)", "(let ((x E E)) B)", "(let (x) B)", "(let ((1 E)) B)", "(let 5 B)", "(let loop)", "(let loop ())",
    "(let loop 5 B)", "(let ((x E) . y) B)", "(let ((x E)) . 5)", "(let ((x E) (x E)) B)", "(let ((x E) (y E) (x E)) B)", "(let loop ((x)) B)", "(let loop ((x E 1)) B)",
    "(let \"s\" B)", "(let ((\"x\" E)) B)", "(let (((x) E)) B)", "(let loop (x) B)", "(let ((x . 5)) B)", "(let ())")] + [
    ("let*", x) for x in ("(let*)", "(let* ((x E)))", "(let* ((x)) B)", "(let* (x) B)", "(let* 5 B)", "(let* ((x E E)) B)", "(let* ((5 E)) B)", "(let* ((x E) . 5) B)", "(let* ())",
                          "(let* ((x E)) . 5)", "(let* x B)")] + [
    ("letrec", x) for x in ("(letrec)", "(letrec ((x E)))", "(letrec ((x)) B)", "(letrec (x) B)", "(letrec ((x E) (x E)) B)", "(letrec 5 B)", "(letrec ((x E E)) B)",
                            "(letrec ((5 E)) B)", "(letrec ((x E)) . 5)", "(letrec x B)")] + [
    ("cond", x) for x in ("(cond 5)", "(cond ())", "(cond [E])", "(cond [E E] [#t])", "(cond [else E] [#t E])", "(cond [else])", "(cond . 5)", "(cond [E . 6])", "(cond [E E] . 5)",
                          "(cond [E E] [else E] [else E])", "(cond [E E] [])", "(cond x)", "(cond [E E] \"s\")")] + [
    ("case", x) for x in ("(case)", "(case E [1 E])", "(case E [(1)])", "(case E [else E] [(1) E])", "(case E [])", "(case E [(1) E] [2 E])",
                          "(case E [x E] [else E])", "(case E 5)", "(case E [(1) E] 5)")] + [
    ("when", x) for x in ("(when)", "(when E)", "(when . 1)", "(when E . 5)")] + [
    ("unless", x) for x in ("(unless)", "(unless E)", "(unless . 1)", "(unless E . 5)")] + [
    ("do", x) for x in ("(do)", "(do ())", "(do ((i 0)) (#t) E)", "(do ((i 0 E)) () E)", "(do (i 0) (#t) E)", "(do ((i 0 E 1)) (#t) E)", "(do 5 (#t) E)", "(do ((i 0 E)) #t E)")] + [
    ("and", "(and . 1)"), ("and", "(and E . 1)"), ("or", "(or . 1)"), ("or", "(or E E . x)"), ("delay", "(delay . 5)"),
    ("else", "(else E)"), ("else", "(begin else E)"), ("else", "(if E else E)")]
BADDEF = [("define", x) for x in (
    "(define)", "(define x)", "(define x E E)", "(define 5 E)", "(define (f))", "(define \"x\" E)", "(define . x)", "(define x . 5)", "(define (f) . 5)", "(define #t E)")]


def bad_program(r):
    """a module with one malformed use in it, which must be rejected before anything of it runs"""
    g = derive.G17(r)
    defs = r.random() < .2
    name, t = r.choice(BADDEF if defs else BAD)
    def ex(m):
        g.size = 100
        return write(g.i({}, 2))
    def bd(m):
        g.size = 100
        return " ".join(write(x) for x in g.body({}, 2))
    t = re.sub(r"\bB\b", bd, re.sub(r"\bE\b", ex, t))
    w = r.choice(["%s", "(display %s)", "(define zz %s)", "(define (zz) %s)", "(lambda (q) %s)", "(let ([k 1]) (list k %s))", "(if #f %s 1)", "(cond [#f %s] [else 1])",
                  "(case 1 [(2) %s] [else 3])", "(when #f %s)", "(do ([k 0 (+ k 1)]) ((= k 2) 1) %s)", "(let loop ([k 0]) (if #t k %s))", "(and #f %s)", "(begin 1 %s)",
                  "(let* ([a 1] [b %s]) b)", "(define (zz) (define q 1) %s q)", "(force (delay %s))"]) if not defs else r.choice(
                      ["%s", "(begin %s 1)", "(let () %s 1)", "(lambda () %s 1)", "(define (zz) %s 2)", "(cond [#t %s 1])", "(let loop ([k 1]) %s k)"])
    t = w % t
    return name, '(import "lib/base.min")\n(define (tr n v) (display n) v)\n(display "ran")\n(define (u) (tr 1 2))\n%s\n%s\n' % (("(u)", t) if r.random() < .5 else (t, "(u)"))


def malformed(ck, r, srv, n):
    ps = [bad_program(r) for _ in range(n)]
    for (name, t), x in zip(ps, srv.run([dict(mode="import", text=t) for _, t in ps], cpu=30)):
        ck.observe(t)
        ck.count("malformed uses: " + name)
        b = None
        if x.crashed or x.kind != "exit":
            b = "abnormal end"
        elif x.code != 1:
            b = "expected a syntax error and status 1"
        elif x.out:
            b = "something of the module ran"
        elif not re.search(r"(^|[( \n`'])%s($|[-): \n`'])" % re.escape(name), x.err.decode("latin1")):
            b = "the report does not name %s" % name
        elif b"contract violation" in x.err:
            b = "not a syntax error"
        if b:
            ck.violate("malformed", "%s\nprogram\n%s\nobserved %s" % (b, t, x.brief()), t)


def main():
    ck = vp.Check("C17", RULE)
    r = ck.rng
    for regen in (False, True):
        if regen and not vp.boot_differs(ck):
            break
        what = "regenerated system" if regen else "system"
        srv = ck.library(regen=regen)
        try:
            p = mon.LibPrograms(ck, srv, what)
            total = ck.n(360, 8000)
            for base in range(0, total, 400):
                ps = []
                for _ in range(min(400, total - base)):
                    g = derive.G17(r)
                    f = g.program()
                    w = big_stack(lambda: mon.lib_expect([derive.core(x) for x in f], derive.DInterp))
                    if w is None:
                        ck.count("programs outside of the model")
                        continue
                    for k, c in g.uses.items():
                        ck.count("uses of " + k, c)
                    ck.count("traced evaluations", w[0].count(" "))
                    ck.count("programs that end with an error", w[1] is not None)
                    ps.append((f, w, None))
                p.run(ps)
                if len(ck.viol) > 5:
                    break
            malformed(ck, r, srv, ck.n(220, 3000))
        finally:
            srv.close()
    ck.finish()


if __name__ == "__main__":
    vp.main(main)
