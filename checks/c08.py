#!/usr/bin/env python3
import _p
import random, re
import vp, mon, core, gencore
from sexp import *
from refeval import *
import gendata

RULE = ("histories that obtain symbols from every source (literals, string->symbol, the readers, eval, FASL, load, procedure and record type names, "
        "environments, syntax), identity of every pair and every printed name compared with the map from names to symbols; histories that make "
        "the symbol table grow several times, every name looked up again; programs whose variables are spelt like the compiler's temporaries; a case is one history")
S = Sym

SHOW = """
(define-values (n) (vector-length v))
(define-values (row) (lambda (i j) (if (= j n) (newline) (begin (display (if (eq? (vector-ref v i) (vector-ref v j)) 1 0)) (row i (add1 j))))))
(define-values (rows) (lambda (i) (if (= i n) (void) (begin (write (symbol->string (vector-ref v i))) (write (symbol? (vector-ref v i)))
   (write (eq? (vector-ref v i) (string->symbol (symbol->string (vector-ref v i))))) (display " ") (row i 0) (rows (add1 i))))))
(rows 0)
"""


def lit(s):
    return write(Str(s))


def readable(n):
    return bool(n) and gendata.readable_symbol(n) if hasattr(gendata, "readable_symbol") else bool(re.fullmatch(r"[a-zA-Z!?*<>=/_$%&^~:][-+a-zA-Z0-9!?*<>=/_$%&^~:.#|@']{0,300}", n))


def names(r):
    pool = []
    base = "".join(r.choice("abcxyz-!?*") for _ in range(r.randint(1, 5)))
    if not base[0].isalpha():
        base = "q" + base
    for _ in range(r.randint(3, 7)):
        k = r.random()
        if k < .25:
            pool.append(base + "".join(r.choice(["Az", "BY"]) for _ in range(3)))      # equal under h * 33 + c
        elif k < .4:
            pool.append(base * r.randint(1, 4))
        elif k < .5:
            pool.append(r.choice(["if", "lambda", "quote", "car", "x", "X", "t0", "mv-let", "values", "define-values", "&exn", "...", "1+"]))
        elif k < .65:
            pool.append("".join(r.choice(" ()[]\"';#|\\.,a1\n\t\x01\x7f\x80\xff") for _ in range(r.randint(0, 6))))
        elif k < .7:
            pool.append(base + r.choice("ab") * r.choice([100, 255, 256, 1000, 4000]))
        else:
            pool.append("".join(r.choice("abcdefXYZ01-+*") for _ in range(r.randint(1, 10))))
    pool.append(base)
    pool.append(base + r.choice(["", "a", "\xff"]))
    return pool


def expr(n, r, path):
    """-> (forms to evaluate before, expression whose value is the symbol named n)"""
    ok = readable(n) and not n[0].isdigit()
    k = r.randrange(18 if ok else 6)
    s = "(string->symbol %s)" % lit(n) if len(n) < 2000 else "(string->symbol (string-append %s %s))" % (lit(n[:1900]), lit(n[1900:]))
    if len(n) > 300:
        k = k % 6
    if k == 0 or k == 1:
        return "", s
    if k == 2:
        i = r.randint(0, len(n))
        return "", "(string->symbol (string-append %s %s))" % (lit(n[:i][-1900:]) if i < 1900 else "(string-append %s %s)" % (lit(n[:1900]), lit(n[1900:i])), lit(n[i:i + 1900]) if len(n) - i < 1900 else "(string-append %s %s)" % (lit(n[i:i + 1900]), lit(n[i + 1900:])))
    if k == 3:
        # a string that changes afterwards
        if not n:
            return "", s
        return "", "(let-values ([(s) (string-append %s \"\")]) (let-values ([(y) (string->symbol s)]) (string-set! s 0 #\\*) y))" % s.replace("string->symbol", "values", 1)
    if k == 4:
        if not n:
            return "", s
        return "", "(let-values ([(y) %s]) (string-set! (symbol->string y) 0 #\\*) y)" % s
    if k == 5:
        f = path()
        return "(define-values (o) (open-output-file \"%s\")) (fasl-write (list 1 %s) o) (close-output-port o)" % (f, s), "(cadr (fasl-read (open-input-file \"%s\")))" % f
    if k == 6:
        return "", "'" + n
    if k == 7:
        return "", "(cadr '(a %s b))" % n
    if k == 8:
        return "", "(vector-ref '#(() %s) 1)" % n
    if k == 9:
        return "", "(cdr '(1 . %s))" % n
    if k == 10:
        return "", "(read (open-input-string %s))" % lit(r.choice(["", " ", "\n", "; c\n"]) + n + r.choice(["", " ", "\n", ")"]))
    if k == 11:
        return "", "(caddr (read (open-input-string %s)))" % lit("(1 #(a) %s)" % n)
    if k == 12:
        return "", "(eval (list 'quote %s))" % s
    if k == 13:
        return "", "(syntax-e (quote-syntax %s))" % n
    if k == 14:
        return "", "(syntax->datum (datum->syntax (syntax-e #'%s)))" % n
    if k == 15:
        return "", "(record-type-name (make-record-type-descriptor '%s #f #f #f #f #()))" % n
    if k == 16:
        return "", "(vector-ref (record-type-field-names (make-record-type-descriptor 'r #f '%s #f #f '#((mutable %s)))) 0)" % (n, n)
    f = path()
    with open(f, "w", encoding="latin1") as h:
        h.write("'a\n'%s\n" % n)
    return "", "(load \"%s\")" % f


BIG = """
(define-values (all) (lambda (p) (letrec-values ([(go) (lambda (out) (let-values ([(x) (read p)]) (if (eof-object? x) out (go (cons x out)))))]) (go '()))))
(define-values (known) (environment-symbols (current-environment)))
(define-values (spelt) (map symbol->string known))
(define-values (old) (list 'car 'cdr 'lambda 'if (string->symbol "not yet seen") 'some-new-name))
(define-values (a) (all (open-input-file "%(f)s")))
(define-values (v) (list->vector a))
(vector-length v)
(andmap (lambda (s i) (eq? s (vector-ref v i))) a (all (open-input-file "%(f)s.idx")))
(andmap (lambda (s n) (eq? s (string->symbol n))) known spelt)
(andmap (lambda (s) (eq? s (string->symbol (symbol->string s)))) a)
(andmap eq? a (all (open-input-file "%(f)s")))
(define-values (h) (make-eq-hashtable))
(for-each (lambda (s) (hashtable-set! h s 1)) a)
(hashtable-size h)
(andmap eq? old (list (read (open-input-string "car")) (string->symbol "cdr") (read (open-input-string " lambda")) 'if (string->symbol (string-append "not " "yet seen")) (eval ''some-new-name)))
(define-values (o) (open-output-file "%(f)s.out"))
(for-each (lambda (s) (write s o) (newline o)) a)
(close-output-port o)
(andmap eq? (reverse a) (all (open-input-file "%(f)s.out")))
(eval (read (open-input-string "((lambda (some-new-name) (if (car '(#t)) (+ some-new-name 1) 2)) 4)")))
"""


def big(r, n, f):
    """-> names, in the order in which they are read, and the position from the end of the first occurrence of each"""
    pre = "".join(r.choice("abcdefg-*") for _ in range(r.randint(1, 6))) + "~"
    k = r.randrange(5)
    if k == 0:
        ns = [pre + str(i) for i in range(n)]
    elif k == 1:
        ns = ["%d%s" % (i * r.choice([1, 7, 8209, 16411]), pre) for i in range(n)]
    elif k == 2:
        # equal hashes
        n = min(n, 1024)
        ns = [pre + "".join(("Az", "BY")[i >> b & 1] for b in range(10)) for i in range(n)] + [str(i) + pre for i in range(7000)]
    elif k == 3:
        ns = [chr(128 + i % 32) * (1 + i // 32) if i % 32 not in (5,) else pre + "y" * i for i in range(n // 20)] + [pre + str(i) for i in range(n)]
    else:
        ns = [pre + "x" * 150 + str(i) + pre for i in range(n)]
    ns = list(dict.fromkeys(ns))
    if r.random() < .5:
        r.shuffle(ns)
    seq = []
    for i, x in enumerate(ns):
        seq.append(x)
        if r.random() < .5:
            seq.append(ns[r.randint(0, i)])
    first = {}
    for i, x in enumerate(seq):
        first.setdefault(x, i)
    m = len(seq)
    with open(f, "w", encoding="latin1") as h:
        h.write("\n".join(seq) + "\n")
    with open(f + ".idx", "w") as h:
        h.write("\n".join(str(m - 1 - first[x]) for x in seq) + "\n")
    return len(ns), m


def main():
    ck = vp.Check("C08", RULE)
    r = ck.rng
    asan, plain = ck.server("asan"), ck.server("plain")
    seq = [0]

    def bad(x, w):
        if x.crashed:
            return "abnormal end: " + x.crashed
        if x.kind != "exit":
            return "did not finish: " + x.kind
        if x.out != w.encode("latin1"):
            g, w2 = x.out, w.encode("latin1")
            n = next((i for i, (a, b) in enumerate(zip(g, w2)) if a != b), min(len(g), len(w2)))
            return "output differs at byte %d: expected ...%r, observed ...%r" % (n, w2[max(0, n - 80):n + 150], g[max(0, n - 80):n + 150])
        if x.code or x.err:
            return "error"

    def history(srv):
        pool = names(r)
        k = r.choice([6, 10, 14])

        def path():
            seq[0] += 1
            return "%s/s%d" % (srv.dir, seq[0])
        ns, out, w = [], ["(define-values (v) (make-vector %d #f))" % k], ["#<void>\n"]
        for i in range(k):
            n = r.choice(pool)
            ns.append(n)
            pre, e = expr(n, r, path)
            if pre:
                out.append(pre)
                w.append("#<void>\n" * 3)
            out.append("(vector-set! v %d %s)" % (i, e))
            w.append("#<void>\n")
        out.append(SHOW)
        w.append("#<void>\n" * 3)
        for n in ns:
            w.append("%s#t#t %s\n" % (lit(n), "".join("01"[n == m] for m in ns)))
        w.append("#<void>\n#<end>\n")
        return "\n".join(out), "".join(w), ns

    try:
        for rnd in range(ck.n(1, 25)):
            # identity of symbols from all sources
            for srv, name, cnt in ((asan, "asan", 400), (plain, "plain", 400)):
                hs = [history(srv) for _ in range(cnt)]
                for (t, w, ns), x in zip(hs, srv.run([dict(mode="evalw", text=t) for t, _, _ in hs], cpu=20)):
                    ck.observe(t)
                    ck.count("symbols obtained, " + name, len(ns))
                    ck.count("pairs compared, " + name, len(ns) ** 2)
                    b = bad(x, w)
                    if b:
                        ck.violate("identity", "%s: %s\nprogram:\n%s\nexpected:\n%s\nobserved: %s" % (name, b, t, w, x.brief()), t)
            # growth
            for srv, name, sizes in ((asan, "asan", [6500, 14000]), (plain, "plain", [100, 6500, 13000, 13000, 26000, 26000, 60000, 110000][:ck.n(6, 8)])):
                jobs = []
                for n in sizes:
                    seq[0] += 1
                    f = "%s/big%d" % (srv.dir, seq[0])
                    n, m = big(r, n, f)
                    w = "#<void>\n" * 6 + "%d\n" % m + "#t\n" * 4 + "#<void>\n" * 2 + "%d\n" % n + "#t\n" + "#<void>\n" * 3 + "#t\n5\n#<end>\n"
                    jobs.append((BIG % dict(f=f), w, m))
                for (t, w, n), x in zip(jobs, srv.run([dict(mode="evalw", text=t) for t, _, _ in jobs], cpu=200)):
                    ck.observe(t)
                    ck.count("growth histories, " + name)
                    ck.count("lookups after growth, " + name, 4 * n)
                    b = bad(x, w)
                    if b:
                        ck.violate("growth", "%s: %s\nprogram:\n%s\nexpected:\n%s\nobserved: %s" % (name, b, t, w, x.brief()), t)
            # variables spelt like temporaries
            progs = []
            for srv in (asan, plain)[:1]:
                x = srv.run([dict(mode="gensym", text="")])[0]
                m = re.fullmatch(r"([^0-9]*)(\d+)\n", x.out.decode("latin1")) if x.kind == "exit" else None
                pre, c0 = (m.group(1), int(m.group(2))) if m else ("t", 0)
                ck.count("first temporary of a program known", 1 if m else 0)
                for s in range(900):
                    rr = random.Random("%d/%d/%d" % (ck.seed, rnd, s))
                    k = rr.choice([4, 8, 16])
                    ids = [S("%s%d" % (pre, c0 + i)) for i in range(k)]
                    sc = gencore.Scope(rr, rr.choice([12, 20, 40]))
                    sc.IV = rr.sample(ids, rr.choice([3, 4]))
                    sc.FV = rr.sample([i for i in ids if i not in sc.IV] or [S("f"), S("g")], 1) + [S("g")]
                    forms = [[DEF, [S("tr")], [LAM, [S("n"), S("v")], [S("display"), S("n")], [S("display"), Str(" ")], S("v")]], sc.e({}, 6), sc.e({}, 5)]
                    w = mon.expect(forms)
                    if w is None:
                        ck.count("outside the model")
                        continue
                    progs.append((forms, w, None))
                mon.Programs(ck, srv, "asan").run(progs, key="temporaries")
            ck.count("programs over names of temporaries", len(progs))
            if ck.viol:
                break
    finally:
        asan.close()
        plain.close()
    lib = ck.library()
    try:
        jobs = []
        for _ in range(ck.n(50, 600)):
            ns = [n for n in (names(r) + names(r)) if readable(n) and len(n) < 200 and "|" not in n and "#" not in n and "'" not in n]
            ns = [r.choice(ns) for _ in range(8)] if ns else []
            if not ns:
                continue
            seq[0] += 1
            m = "m%d.min" % seq[0]
            with open(lib.dir + "/" + m, "w", encoding="latin1") as h:
                h.write('(import "lib/base.min")\n(export there)\n(define there (list %s))\n' % " ".join("'" + n for n in ns))
            t = ['(import "lib/base.min" "lib/read.min" "%s")\n(define-syntax q (syntax-rules () [(_ x) \'x]))' % m,
                 '(define p (open-input-string %s))' % lit(" ".join(ns)),
                 "(define a (list %s))" % " ".join(r.choice(["'%s", "(q %s)", "(syntax-e #'%s)", "(string->symbol \"%s\")", "(syntax->datum (car (syntax->list #'(%s))))", "(case 1 [(1) '%s] [else 2])"]) % n for n in ns),
                 "(write (map eq? a there)) (write (map (lambda (x) (eq? (syntax->datum (read p)) x)) a))",
                 "(for-each (lambda (x) (newline) (for-each (lambda (y) (display (if (eq? x y) 1 0))) there)) a)"]
            w = "(%s)" % " ".join(["#t"] * len(ns))
            jobs.append(("\n".join(t), w + w + "".join("\n" + "".join("01"[n == k] for k in ns) for n in ns)))
        for (t, w), x in zip(jobs, lib.run([dict(mode="import", text=t) for t, _ in jobs], cpu=60)):
            ck.observe(t)
            ck.count("histories with modules and macros")
            b = bad(x, w)
            if b:
                ck.violate("library", "%s\nprogram:\n%s\nexpected:\n%s\nobserved: %s" % (b, t, w, x.brief()), t)
    finally:
        lib.close()
    ck.finish()


if __name__ == "__main__":
    vp.main(main)
