#!/usr/bin/env python3
import _p
import os, random
import vp, mon
from sexp import *

RULE = ("random loops through one to four procedures whose calls are in tail position under random nestings of every tail context, run short and long with the peak of "
        "the live heap measured at forced collections: the result must be right and the peak must not grow; random recursion under random nestings of every non-tail "
        "context, with argument lists and multiple values of random width at random depth, across many stack segments, compared with the same computation made outside; "
        "a case is one program")
M = 1 << 64


def w(x):
    x &= M - 1
    return x - M if x >> 63 else x


class Tails:
    """expressions with the same meaning in Minim and in Python; a loop state is (i, a, b)"""

    def __init__(self, r, lib, np):
        self.r, self.lib, self.np, self.k = r, lib, np, 0

    def var(self):
        self.k += 1
        return "v%d" % self.k

    def e(self, d, sc):
        """a non-tail expression with an integer value -> (minim, python)"""
        r = self.r
        k = r.randrange(10)
        if d <= 0 or k < 3:
            if r.random() < .3:
                n = r.randint(-9, 99)
                return str(n), "(%d)" % n
            v = r.choice(sc)
            return v, v
        a, b = self.e(d - 1, sc), self.e(d - 1, sc)
        if k < 5:
            o = r.choice("+-*")
            return "(%s %s %s)" % (o, a[0], b[0]), "w(%s %s %s)" % (a[1], o, b[1])
        if k == 5:
            return "(help %s %s)" % (a[0], b[0]), "w(%s * 3 - %s)" % (a[1], b[1])
        if k == 6:
            return "(apply + (list %s %s 1))" % (a[0], b[0]), "w(%s + %s + 1)" % (a[1], b[1])
        if k == 7:
            x = self.var()
            return "(let-values ([(%s) %s]) (- %s %s))" % (x, a[0], b[0], x), "w(%s - %s)" % (b[1], a[1])
        if k == 8:
            c = self.c(sc)
            return "(if %s %s %s)" % (c[0], a[0], b[0]), "(%s if %s else %s)" % (a[1], c[1], b[1])
        x = self.var()
        return "(call-with-values (lambda () (values %s %s)) (lambda (%s y) (- %s y)))" % (a[0], b[0], x, x), "w(%s - %s)" % (a[1], b[1])

    def c(self, sc):
        r = self.r
        a, b = self.e(0, sc), self.e(0, sc)
        o = r.choice(["<", ">", "=", "<="])
        return "(%s %s %s)" % (o, a[0], b[0]), "(%s %s %s)" % (a[1], o.replace("=", "==") if o == "=" else o, b[1])

    def call(self, sc):
        r = self.r
        j = r.randrange(self.np)
        a, b = self.e(1, sc), self.e(1, sc)
        py = "(%d, i - 1, %s, %s)" % (j, a[1], b[1])
        f = "f%d" % j
        k = r.randrange(8 if not self.lib else 6)
        ar = ("(- i 1)", a[0], b[0])
        if k < 3:
            return "(%s %s %s %s)" % ((f,) + ar), py
        if k == 3:
            return "(apply %s (list %s %s %s))" % ((f,) + ar), py
        if k == 4:
            return "(apply %s %s (list %s %s))" % ((f,) + ar), py
        if k == 5:
            return "(call-with-values (lambda () (values %s %s %s)) %s)" % (ar + (f,)), py
        if k == 6:
            return "((car (cons %s 1)) %s %s %s)" % ((f,) + ar), py
        return "(apply apply %s (list (list %s %s %s)))" % ((f,) + ar), py

    def t(self, d, sc):
        """an expression in tail position"""
        r = self.r
        if d <= 0:
            return self.call(sc)
        n = 10 + (13 if self.lib else 0)
        k = r.randrange(n) if not self.lib else r.choice([r.randrange(10), r.randrange(10, n), r.randrange(10, n)])
        if k == 0:
            c, a, b = self.c(sc), self.t(d - 1, sc), self.t(d - 1, sc)
            return "(if %s %s %s)" % (c[0], a[0], b[0]), "(%s if %s else %s)" % (a[1], c[1], b[1])
        if k == 1:
            e, a = self.e(1, sc), self.t(d - 1, sc)
            return "(begin %s %s)" % (r.choice([e[0], "(set! global %s)" % e[0], "(void)"]), a[0]), a[1]
        if k in (2, 3):
            x = self.var()
            e = self.e(1, sc)
            if k == 2:
                a = self.t(d - 1, sc + [x])
                return "(let-values ([(%s) %s]) %s)" % (x, e[0], a[0]), "(lambda %s: %s)(%s)" % (x, a[1], e[1])
            y = self.var()
            e2 = self.e(1, sc)
            a = self.t(d - 1, sc + [x, y])
            return "(let-values ([(%s %s) (values %s %s)]) %s)" % (x, y, e[0], e2[0], a[0]), "(lambda %s, %s: %s)(%s, %s)" % (x, y, a[1], e[1], e2[1])
        if k == 4:
            g = self.var()
            a = self.t(d - 1, sc)
            return "(letrec-values ([(%s) (lambda () %s)]) (%s))" % (g, a[0], g), a[1]
        if k == 5:
            x = self.var()
            e = self.e(1, sc)
            a = self.t(d - 1, sc + [x])
            return "((lambda (%s) %s) %s)" % (x, a[0], e[0]), "(lambda %s: %s)(%s)" % (x, a[1], e[1])
        if k == 6:
            x, y = self.var(), self.var()
            e, e2 = self.e(1, sc), self.e(1, sc)
            a = self.t(d - 1, sc + [x, y])
            return "((case-lambda [(u) 7] [(%s %s) %s] [u 8]) %s %s)" % (x, y, a[0], e[0], e2[0]), "(lambda %s, %s: %s)(%s, %s)" % (x, y, a[1], e[1], e2[1])
        if k == 7:
            x, y = self.var(), self.var()
            e, e2 = self.e(1, sc), self.e(1, sc)
            a = self.t(d - 1, sc + [x, y])
            return "(call-with-values (lambda () (values %s %s)) (lambda (%s %s) %s))" % (e[0], e2[0], x, y, a[0]), "(lambda %s, %s: %s)(%s, %s)" % (x, y, a[1], e[1], e2[1])
        if k == 8:
            x = self.var()
            e = self.e(1, sc)
            a = self.t(d - 1, sc + [x])
            return "(apply (lambda (%s . rest) %s) (list %s 1 2))" % (x, a[0], e[0]), "(lambda %s: %s)(%s)" % (x, a[1], e[1])
        if k == 9:
            g = self.var()
            x = self.var()
            e = self.e(1, sc)
            a = self.t(d - 1, sc + [x])
            return "(let-values ([(%s) (lambda (%s) %s)]) (%s %s))" % (g, x, a[0], g, e[0]), "(lambda %s: %s)(%s)" % (x, a[1], e[1])
        # forms of the library
        if k == 10:
            c, c2 = self.c(sc), self.c(sc)
            a, b, x = self.t(d - 1, sc), self.t(d - 1, sc), self.t(d - 1, sc)
            return "(cond [%s %s] [%s %s] [else %s])" % (c[0], a[0], c2[0], b[0], x[0]), "(%s if %s else %s if %s else %s)" % (a[1], c[1], b[1], c2[1], x[1])
        if k == 11:
            e = self.e(1, sc)
            a, b = self.t(d - 1, sc), self.t(d - 1, sc)
            return "(case (modulo %s 5) [(0 2) %s] [else %s])" % (e[0], a[0], b[0]), "(%s if %s %% 5 in (0, 2) else %s)" % (a[1], e[1], b[1])
        if k in (12, 13):
            c = self.c(sc)
            a = self.t(d - 1, sc)
            if k == 12:
                return "(and #t (or #f %s #t) %s)" % (c[0], a[0]), a[1]
            return "(or #f (and %s #f) %s)" % (c[0], a[0]), a[1]
        if k in (14, 15):
            a = self.t(d - 1, sc)
            e = self.e(1, sc)
            return "(%s %s %s)" % ("when #t" if k == 14 else "unless #f", e[0], a[0]), a[1]
        if k in (16, 17):
            x, y = self.var(), self.var()
            e = self.e(1, sc)
            e2 = self.e(1, sc + ([x] if k == 17 else []))
            a = self.t(d - 1, sc + [x, y])
            return "(%s ([%s %s] [%s %s]) %s)" % ("let" if k == 16 else "let*", x, e[0], y, e2[0], a[0]), "(lambda %s: (lambda %s: %s)(%s))(%s)" % (
                x, y, a[1], e2[1], e[1]) if k == 17 else "(lambda %s, %s: %s)(%s, %s)" % (x, y, a[1], e[1], e2[1])
        if k == 18:
            g = self.var()
            x = self.var()
            a = self.t(d - 1, sc + [x])
            return "(letrec ([%s (lambda (%s) (if (> %s 3) %s (%s (+ %s 1))))]) (%s 1))" % (g, x, x, a[0], g, x, g), "(lambda %s: %s)(4)" % (x, a[1])
        if k == 19:
            g = self.var()
            x = self.var()
            e = self.e(1, sc)
            a = self.t(d - 1, sc + [x])
            return "(let () (define (%s %s) %s) (%s %s))" % (g, x, a[0], g, e[0]), "(lambda %s: %s)(%s)" % (x, a[1], e[1])
        if k == 20:
            x = self.var()
            a = self.t(d - 1, sc + [x])
            return "(do ([%s 0 (+ %s 1)]) ((= %s 3) (void) %s) (void))" % (x, x, x, a[0]), "(lambda %s: %s)(3)" % (x, a[1])
        if k == 21:
            g = self.var()
            x = self.var()
            a = self.t(d - 1, sc + [x])
            return "(let %s ([%s 0]) (if (= %s 2) %s (%s (+ %s 1))))" % (g, x, x, a[0], g, x), "(lambda %s: %s)(2)" % (x, a[1])
        x, y = self.var(), self.var()
        e, e2 = self.e(1, sc), self.e(1, sc)
        a = self.t(d - 1, sc + [x, y])
        return "(let-values ([(%s %s) (values %s %s)]) %s)" % (x, y, e[0], e2[0], a[0]), "(lambda %s, %s: %s)(%s, %s)" % (x, y, a[1], e[1], e2[1])


HELP = "(define-values (global) 0)\n(define-values (help) (lambda (x y) (- (* x 3) y)))\n"


def loop(r, lib):
    np = r.choice([1, 1, 2, 3, 4])
    g = Tails(r, lib, np)
    defs, fs = [], []
    depth = r.choice([0, 1, 1, 2, 3])
    for j in range(np):
        m, p = g.t(depth if r.random() < .8 else 1, ["i", "a", "b"])
        f = "(lambda (i a b) (if (= i 0) (- a b) %s))" % m
        k = r.randrange(3)
        if k == 1:
            f = "(case-lambda [(x) x] [(i a b) (if (= i 0) (- a b) %s)])" % m
        elif k == 2 and lib:
            f = "(lambda (i a b) (cond [(= i 0) (- a b)] [else %s]))" % m
        defs.append("(define-values (f%d) %s)" % (j, f))
        fs.append(eval("lambda i, a, b: " + p, {"w": w}))

    def py(n, a, b):
        j, i = 0, n
        while i:
            j, i, a, b = fs[j](i, a, b)
        return w(a - b)
    return HELP + "\n".join(defs) + "\n", py


# ---- deep recursion

# name, minim text with @ for the recursive call and K for a constant, python of (r, k, wide)
NONTAIL = [
    ("(+ K @)", lambda x, k, m: w(k + x)),
    ("(- @ K)", lambda x, k, m: w(x - k)),
    ("(let-values ([(u) @]) (+ u (* K 2)))", lambda x, k, m: w(x + k * 2)),
    ("(let-values ([(u v) (values K @)]) (- v u))", lambda x, k, m: w(x - k)),
    ("(let-values ([(u) K] [(v) @]) (- u v))", lambda x, k, m: w(k - x)),
    ("(call-with-values (lambda () (values @ K 3)) (lambda (u v z) (- u (* v z))))", lambda x, k, m: w(x - k * 3)),
    ("(apply + @ (iota M (list)))", lambda x, k, m: w(x + m * (m + 1) // 2)),
    ("(apply + (cons @ (iota M (list 1))))", lambda x, k, m: w(x + 1 + m * (m + 1) // 2)),
    ("(car (map (lambda (z) (+ z @)) (list K)))", lambda x, k, m: w(x + k)),
    ("(begin (set! global @) (+ global K))", lambda x, k, m: w(x + k)),
    ("(if (= @ 0) 5 K)", lambda x, k, m: 5 if x == 0 else k),
    ("(vector-ref (vector K @ K) 1)", lambda x, k, m: x),
    ("(car (cdr (list K @)))", lambda x, k, m: x),
    ("(call-with-values (lambda () (apply values (iota M (list @)))) (lambda all (apply - all)))", lambda x, k, m: w(1 - (m * (m + 1) // 2 - 1) - x) if m else w(-x)),
    ("(call-with-values (lambda () (apply values @ (iota M (list)))) (lambda (u . all) (+ u (length all))))", lambda x, k, m: w(x + m)),
    ("((lambda (u . v) (+ u (apply + v))) @ K 1)", lambda x, k, m: w(x + k + 1)),
    ("(letrec-values ([(g) (lambda (u) (if (= u 0) @ (g (- u 1))))]) (+ K (g 2)))", lambda x, k, m: w(x + k)),
    ("(eval (list (quote +) K @))", lambda x, k, m: w(x + k)),
    ("(+ (eval (list (quote f) (- n 1))) K)", lambda x, k, m: w(x + k)),
    ("((lambda (p1 p2 p3 p4 p5 p6 p7 p8 p9 p10) (- (+ p1 p10) p5)) K 2 3 4 5 6 7 8 9 @)", lambda x, k, m: w(k + x - 5)),
    ("(apply (lambda (u v . z) (+ v (length z))) K @ (iota M (list)))", lambda x, k, m: w(x + m)),
    ("(+ (catch (lambda () (error (quote x) \"y\"))) @)", lambda x, k, m: w(x + 7)),
    ("(- (noise K M) @)", lambda x, k, m: w(k + m - x)),
]
DEEP = """(define-values (global) 0)
(define-values (iota) (lambda (n l) (if (= n 0) l (iota (- n 1) (cons n l)))))
(define-values (catch) (lambda (t) (begin (current-error-handler (lambda (x) 7)) (t))))
(define-values (noise) (lambda (k m) (if (= k 0) m (+ 1 (noise (- k 1) m)))))
"""


def deep(r, depth, wide):
    nc = r.choice([1, 2, 3, 5, 8])
    cs = []
    for _ in range(nc):
        t, p = r.choice(NONTAIL)
        k = r.randint(0, 60)
        m = r.choice([0, 1, 2, 5, 17, 60, r.randint(1, wide)])
        if nc == 1 and m > 60:
            m = 60
        cs.append((t.replace("K", str(k)).replace("M", str(m)).replace("@", "(f (- n 1))"), p, k, m, t))
    if any("eval" in c[4] for c in cs):
        depth = min(depth, 3000)
    if sum(c[3] for c in cs) * depth // nc > 1200000:
        depth = max(50, 1200000 * nc // max(1, sum(c[3] for c in cs)))
    body = cs[-1][0]
    for i in range(nc - 2, -1, -1):
        body = "(if (= c %d) %s %s)" % (i, cs[i][0], body)
    base = r.randint(-50, 50)
    text = DEEP + "(define-values (f) (lambda (n) (if (= n 0) %d (let-values ([(c) (modulo n %d)]) %s))))\n" % (base, nc, body)
    ds = [depth, r.randint(1, depth), r.randint(1, 300), depth]
    want = ["#<void>\n"] * 5
    for d in ds:
        text += "(f %d)\n" % d
        x = base
        for n in range(1, d + 1):
            c = cs[n % nc]
            x = c[1](x, c[2], c[3])
        want.append("%d\n" % x)
    return text, "".join(want) + "#<end>\n", [c[4] for c in cs], sum(ds)


def wide(r, n):
    """argument lists and multiple values of n elements"""
    s = n * (n + 1) // 2
    fs = [("(apply + (iota N (list)))", s), ("(length (apply list (iota N (list))))", n), ("(apply (lambda all (length all)) 1 2 (iota N (list)))", n + 2),
          ("(call-with-values (lambda () (apply values (iota N (list)))) +)", s),
          ("(let-values ([(x y z) (values 1 2 3)]) (apply + (iota N (list x y z))))", s + 6),
          ("(call-with-values (lambda () (apply values 5 (iota N (list)))) (lambda (a b c . d) (list a b c (length d))))", "(5 1 2 %d)" % (n - 2)),
          ("(vector-length (apply vector (iota N (list))))", n), ("(apply max2 (list 1 (apply + (iota N (list)))))", s),
          ("(apply (case-lambda [(a) 1] [(a b) 2] [(a . b) (apply + a b)]) (iota N (list)))", s),
          ("(f3 N)", s + 3 * n)]
    t = DEEP + ("(define-values (max2) (lambda (a b) (if (< a b) b a)))\n"
                "(define-values (f3) (lambda (n) (call-with-values (lambda () (apply values (iota n (list)))) (lambda all (+ (apply + all) (* 3 (length all)))))))\n")
    want = "#<void>\n" * 6
    for f, v in r.sample(fs, 6) if n > 20000 else fs * 2:
        t += f.replace("N", str(n)) + "\n"
        want += "%s\n" % v
    return t, want + "#<end>\n"


LIMIT = 256 << 10       # bytes of live heap by which the longer loop may exceed the shorter one


def loops(ck, srv, lib, n, sizes):
    r = ck.rng
    mode = "import" if lib else "evalw"
    cases = []
    for _ in range(n):
        text, py = loop(r, lib)
        a, b = r.randint(-99, 99), r.randint(-99, 99)
        for N in sizes:
            v = py(N, a, b)
            t = text + "(f0 %d %d %d)\n" % (N, a, b)
            if lib:
                t = '(import "lib/base.min")\n' + text + "(display (f0 %d %d %d))\n" % (N, a, b)
                want = "%d" % v
            else:
                want = "#<void>\n" * text.count("\n") + "%d\n#<end>\n" % v
            cases.append((t, want))
    rs = srv.run([dict(mode=mode, text=t) for t, _ in cases], cpu=200, mem=6000)
    step = len(sizes)
    for i in range(0, len(cases), step):
        ck.observe(cases[i][0])
        lives = []
        for (t, want), x in zip(cases[i:i + step], rs[i:i + step]):
            if x.kind != "exit" or x.code or x.crashed or x.out.decode("latin1") != want:
                ck.violate("loop", "a loop gives a wrong result or does not finish\nprogram:\n%s\nexpected ...%r\nobserved %s" % (t, want[-80:], x.brief()), t)
                break
            lives.append(x.stats.get("live", 0))
            ck.count("iterations", int(t.split("(f0 ")[-1].split()[0]))
            ck.count("collections with the live heap measured", x.stats.get("gcs", 0))
        else:
            if 0 in lives:
                vp.die("no measurement of the live heap")
            ck.count("library loops" if lib else "core loops")
            if lives[-1] - lives[0] > LIMIT:
                ck.violate("space", "the space of a loop grows with its length: peaks of the live heap %s for %s iterations\nprogram:\n%s" % (
                    lives, sizes, cases[i][0]), cases[i + step - 1][0])
            elif i % max(1, (len(cases) // 4)) < step:
                ck.sample("%s -> live %s" % (cases[i][0][-400:], lives))


def main():
    ck = vp.Check("C03", RULE)
    r = ck.rng
    env = {"VP_LIVE_PERIOD": "30000", "VP_STATS": "1"}
    srv = ck.server("plain", env=env)
    try:
        loops(ck, srv, False, ck.n(70, 600), (2000, 30000) if not ck.thorough else (2000, 100000))
    finally:
        srv.close()
    srv = ck.library(env={"VP_LIVE_PERIOD": "300000", "VP_STATS": "1"})
    try:
        loops(ck, srv, True, ck.n(24, 200), (6000, 30000) if not ck.thorough else (6000, 100000))
    finally:
        srv.close()
    # recursion
    for v, n, dmax, wmax in (("plain", ck.n(40, 900), 20000 if not ck.thorough else 60000, 3000), ("asan", ck.n(50, 500), 5000, 3000)):
        s = ck.server(v)
        try:
            cases = []
            for i in range(n):
                d = r.choice([r.randint(1, dmax), r.randint(1, dmax // 10), r.randint(1, 1000)]) if i % 20 else (dmax * 10 if v == "plain" else dmax)
                cases.append(deep(r, d, wmax))
            ws = [r.choice([3, 7, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 1023, 1024, 1025, r.randint(3, 3000), r.randint(1000, 12000)]) for _ in range(n // 2)]
            ws += [100000, 1000000 if ck.thorough else 200000] if v == "plain" else [20000]
            cases = [wide(r, x) + ([], x) for x in sorted(ws, reverse=True)] + sorted(cases, key=lambda c: -c[3])
            rs = s.run([dict(mode="evalw", text=c[0]) for c in cases], cpu=120, mem=8000)
            for c, x in zip(cases, rs):
                ck.observe(c[0])
                ck.count("programs with deep or wide calls on " + v)
                ck.count("pending frames", c[3])
                if x.kind != "exit" or x.code or x.crashed or x.out.decode("latin1") != c[1]:
                    ck.violate("depth", "%s build: deep or wide calls\nprogram:\n%s\nexpected %r\nobserved %s" % (v, c[0], c[1], x.brief()), c[0])
        finally:
            s.close()
    ck.finish()


if __name__ == "__main__":
    vp.main(main)
