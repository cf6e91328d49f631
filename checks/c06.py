#!/usr/bin/env python3
import _p
import random
import vp, mon, core
from sexp import *
from refeval import *
from mon import Q
import gendata

RULE = ("random data built by constructor calls (not by the reader): printed by every writer to standard output, a string port and a file, "
        "read back by the core reader from a string port and from the file and by the library's reader; texts compared with the model's "
        "and values with equal? and with the model; a case is one value")
S = Sym

DEFS = """
(define-values (all) (lambda (p) (let-values ([(x) (read p)]) (if (eof-object? x) '() (cons x (all p))))))
(define-values (back) (lambda (s) (all (open-input-string s))))
(define-values (to-string) (lambda (f) (let-values ([(p) (open-output-string)]) (f p) (get-output-string p))))
(define-values (check) (lambda (v)
  (write v) (newline) (display v) (newline)
  (write v (current-output-port)) (newline) (display v (current-output-port)) (newline)
  (printf "~s" v) (newline) (printf "~a" v) (newline)
  (let-values ([(w) (to-string (lambda (p) (write v p)))] [(d) (to-string (lambda (p) (display v p)))]
               [(f) (format "~s" v)] [(g) (format "~a" v)] [(h) (to-string (lambda (p) (fprintf p "~s" v)))]
               [(m) (to-string (lambda (p) (put-datum p v)))])
    (display w) (newline) (display d) (newline)
    (write (list (equal? w f) (equal? d g) (equal? w h) (equal? w m))) (newline)
    (letrec-values ([(xs) (back w)])
      (write (list (equal? xs (list v)) (equal? (list v) xs) (equal-hash (car xs)) (equal-hash v))) (newline)
      (write (car xs)) (newline)))))
(define-values (build) (lambda (xs t) (if (null? xs) t (cons (car xs) (build (cdr xs) t)))))
(define-values (same) (lambda (v) (let-values ([(a) (equal-hash v)] [(b) (equal-hash (car (back (format "~s" v))))]) (= a b))))
""".replace("(write (list (equal? xs (list v)) (equal? (list v) xs) (equal-hash (car xs)) (equal-hash v)))",
            "(write (list (equal? xs (list v)) (equal? (list v) xs) (= (equal-hash (car xs)) (equal-hash v))))")


def lit(s):
    return write(Str(s))


def expr(v, r):
    """an expression that builds v"""
    if isinstance(v, (bool, int)) and not isinstance(v, Sym):
        return write(v)
    if isinstance(v, Sym):
        return "(string->symbol %s)" % expr(Str(v), r) if r.random() < .6 else "'" + v
    if isinstance(v, Char):
        return "(integer->char %d)" % core_code(v.c) if r.random() < .6 or v.c == "\0" else write(v)
    if isinstance(v, Str):
        if len(v.s) < 60 and r.random() < .5:
            return "(string %s)" % " ".join("(integer->char %d)" % core_code(c) for c in v.s)
        return "(string-append %s)" % " ".join(lit(v.s[i:i + 1000]) for i in range(0, len(v.s) or 1, 1000))
    if isinstance(v, Const):
        return {NIL: "'()", VOID: "(void)", EOF: "eof"}[v]
    if isinstance(v, Box):
        return "(box %s)" % expr(v.v, r)
    if isinstance(v, Vec):
        return "(vector %s)" % " ".join(expr(x, r) for x in v.v)
    xs, t = unlist(v)
    if t is NIL and r.random() < .7:
        return "(list %s)" % " ".join(expr(x, r) for x in xs)
    if len(xs) > 30:
        return "(build (list %s) %s)" % (" ".join(expr(x, r) for x in xs), expr(t, r))
    out = expr(t, r)
    for x in reversed(xs):
        out = "(cons %s %s)" % (expr(x, r), out)
    return out


def core_code(c):
    return ord(c)


def want(v):
    w, d = write(v), write(v, display=True)
    return "\n".join([w, d, w, d, w, d, w, d, "(#t #t #t #t)", "(#t #t #t)", w]) + "\n"


def big(r):
    """values whose size stresses the printers and readers"""
    k = r.randrange(7)
    n = r.choice([300, 1000, 5000])
    if k == 0:
        return Str("".join(r.choice("ab\n\"\\ \x80\xff") for _ in range(min(n, 1900))))
    if k == 1:
        return lst([gendata.data(r, 0) for _ in range(n)])
    if k == 2:
        return Vec([gendata.data(r, 0) for _ in range(n)])
    if k == 3:
        v = gendata.data(r, 1)
        for _ in range(r.choice([100, 600])):
            v = r.choice([lambda v: lst([v]), lambda v: Vec([v]), Box, lambda v: lst([1, v, S("x")]), lambda v: Vec([v, v]) if False else Vec([1, v])])(v)
        return v
    if k == 4:
        return S("q" * r.choice([200, 1000, 3000, 4090]))
    if k == 5:
        v = NIL
        for i in range(n):
            v = Pair(i, v)
        return v
    return lst([Str("x" * 400), Vec([Str("y" * 300)] * 1)], S("end"))


LIB = """(import "lib/base.min" "lib/read.min")
(define (rd p) (let ([s (read p)]) (if (eof-object? s) '() (cons s (rd p)))))
(define (datum s) (syntax->datum s))
(define (build xs t) (if (null? xs) t (cons (car xs) (build (cdr xs) t))))
(define (check v file)
  (define o (open-output-file file))
  (write v o) (newline o) (fprintf o "~s" v)
  (close-output-port o)
  (define i (open-input-file file))
  (define xs (map datum (rd i)))
  (close-input-port i)
  (write (list (length xs) (equal? (car xs) v) (equal? (cadr xs) v)))
  (newline)
  (write (car xs)) (newline))
"""


def main():
    ck = vp.Check("C06", RULE)
    r = ck.rng
    asan, plain = ck.server("asan"), ck.server("plain")
    lib = None

    def values(n):
        out = []
        for _ in range(n):
            k = r.random()
            if k < .08:
                out.append(Char(chr(r.randrange(0, 256))))
            elif k < .2:
                out.append(Str("".join(chr(r.randrange(1, 256)) for _ in range(r.randint(0, 30)))))
            else:
                out.append(gendata.data(r, r.choice([0, 1, 2, 3, 4])))
        return out

    def plain_values(n):
        # a string holds no NUL, so a NUL character cannot be displayed to a string port
        return [v for v in values(n) if "\0" not in write(v, display=True)]

    def judge(name, progs, rs):
        for (vs, text, w), x in zip(progs, rs):
            for v in vs:
                ck.observe(write(v))
            ck.count("values, " + name, len(vs))
            bad = None
            if x.crashed:
                bad = "abnormal end: " + x.crashed
            elif x.kind != "exit":
                bad = "did not finish: " + x.kind
            elif x.out != w.encode("latin1"):
                g, w2 = x.out, w.encode("latin1")
                n = next((i for i, (a, b) in enumerate(zip(g, w2)) if a != b), min(len(g), len(w2)))
                bad = "output differs at byte %d: expected ...%r, observed ...%r" % (n, w2[max(0, n - 80):n + 150], g[max(0, n - 80):n + 150])
            elif x.code or x.err:
                bad = "error"
            if bad:
                ck.violate("value", "%s: %s\nprogram:\n%s\nobserved: %s" % (name, bad, text[-5000:], x.brief()), text)

    def batch(vals, per):
        out = []
        for i in range(0, len(vals), per):
            vs = vals[i:i + per]
            t, w = [DEFS], []
            for v in vs:
                e = expr(v, r)
                t.append("(define-values (v) %s)\n(check v)\nv\n(vector v v)" % e)
                w.append("#<void>\n" + want(v) + "#<void>\n" + write(v) + "\n" + "#(%s %s)\n" % (write(v), write(v)))
            out.append((vs, "\n".join(t), "#<void>\n" * 6 + "".join(w) + "#<end>\n"))
        return out

    try:
        for rnd in range(ck.n(1, 30)):
            vals = plain_values(1000)
            bigs = [big(r) for _ in range(ck.n(16, 60))]
            ps = batch(vals, 12) + batch(bigs, 1)
            judge("asan build", ps, asan.run([dict(mode="evalw", text=t) for _, t, _ in ps], cpu=60))
            ps = batch(plain_values(1000), 12) + batch([big(r) for _ in range(10)], 1)
            judge("plain build", ps, plain.run([dict(mode="evalw", text=t) for _, t, _ in ps], cpu=60))
            ps = []
            for v in [v for v in values(1500) + [Char("\0"), lst([Char("\0"), 1]), Vec([Char("a"), Char("\0")]), Pair(1, Char("\0")), Box(Char("\0"))] if "\0" in write(v, display=True)]:
                ps.append(([v], "(define-values (build) (lambda (xs t) (if (null? xs) t (cons (car xs) (build (cdr xs) t)))))\n(define-values (v) %s)\nv\n(begin (write v) (newline) (display v) (newline) (write (format \"~s\" v)) (newline) "
                           "(write (equal? v (read (open-input-string (format \"~s\" v))))) (newline))" % expr(v, r),
                           "#<void>\n#<void>\n%s\n%s\n%s\n%s\n#t\n#<void>\n#<end>\n" % (write(v), write(v), write(v, display=True), wstr(write(v)))))
            judge("with NUL characters", ps, asan.run([dict(mode="evalw", text=t) for _, t, _ in ps], cpu=60))
            # printers must not depend on the reader's limits
            ps = []
            for n in (5000, 20000, 70000):
                for v in (Str("a" * n + '"'), lst(range(n)), Vec(range(n))):
                    e = {Str: '(letrec-values ([(f) (lambda (s n) (if (= n 0) s (f (string-append s "a") (- n 1))))]) (string-append (make-string %d #\\a) "\\""))' % n,
                         Pair: "(iota %d)" % n, Vec: "(list->vector (iota %d))" % n}[type(v)]
                    w = write(v)
                    ps.append(([v], "(define-values (v) %s)\nv\n(begin (write v) (newline) (display (format \"~s\" v)) (newline))" % e, "#<void>\n" + (w + "\n") * 3 + "#<void>\n#<end>\n"))
                v = S("k" * n)
                ps.append(([v], "(define-values (v) (string->symbol (make-string %d #\\k)))\nv\n(begin (write v) (newline) (display (format \"~s\" (list v))) (newline))" % n,
                           "#<void>\n%s\n%s\n(%s)\n#<void>\n#<end>\n" % (v, v, v)))
            judge("printers only", ps, asan.run([dict(mode="evalw", text=t) for _, t, _ in ps], cpu=60))
            if ck.viol:
                break
        if not ck.viol:
            lib = ck.library(also=("read.min",))
            for rnd in range(ck.n(1, 12)):
                vals = plain_values(640) + [big(r) for _ in range(ck.n(6, 20))]
                vals = [v for v in vals if "\0" not in write(v)]
                ps = []
                for i in range(0, len(vals), 8):
                    vs = vals[i:i + 8]
                    ps.append((vs, LIB + "".join('(check %s "w%d.txt")\n' % (expr(v, r), i) for v in vs),
                               "".join("(2 #t #t)\n%s\n" % write(v) for v in vs)))
                judge("library reader", ps, lib.run([dict(mode="import", text=t) for _, t, _ in ps], cpu=60))
    finally:
        asan.close()
        plain.close()
        if lib:
            lib.close()
    ck.finish()


if __name__ == "__main__":
    vp.main(main)
