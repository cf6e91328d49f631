#!/usr/bin/env python3
import _p
import os, random, subprocess, time
import vp, mon, gencore, gendata
import c06, c09, c10, c11, c13, c14, c15, c16, c26
from sexp import *
from refeval import *
from refeval import big_stack

RULE = ("generated programs over every part of the runtime (closures, values, environments, hashtables, records, ports, symbols, errors, FASL, the reader and printer, the base "
        "library) run on a build whose collector runs exactly where a schedule says, poisons what it frees and never uses it again; output, status and error report under "
        "schedules from a collection at every allocation to one in hundreds must equal those of the run without collections; a case is one program under one schedule")


def text(forms):
    return "\n".join(write(f) for f in forms)


CHURN = """(define-values (iota) (lambda (n l) (if (= n 0) l (iota (- n 1) (cons n l)))))
(define-values (repeat) (lambda (n t) (if (= n 0) (void) (begin (t) (repeat (- n 1) t)))))
"""


def churn(r):
    """objects held in one place only, garbage made, the objects used"""
    t = CHURN
    holders = [
        ("(define-values (k) (string->symbol (string-append \"sy\" (number->string N))))", "(list k (eq? k (string->symbol (string-append \"sy\" \"N\"))) (equal? (symbol->string k) \"syN\"))"),
        ("(define-values (h) (make-hashtable equal-hash equal?))\n(repeat N (lambda () (hashtable-set! h (list (hashtable-size h) \"k\") (vector (hashtable-size h)))))",
         "(list (hashtable-size h) (hashtable-ref h (list 0 \"k\")) (hashtable-ref h (list (- N 1) (string-append \"k\"))))"),
        ("(define-values (eh) (make-eq-hashtable))\n(for-each (lambda (x) (hashtable-set! eh x (list x x))) (iota N (list)))", "(list (hashtable-ref eh 1) (hashtable-ref eh N))"),
        ("(define-values (ip) (open-input-string (string-append \"(a b . \" \"#(1 \\\"x\\\" #\\\\z)) rest more N\")))", "(list (read ip) (read-char ip) (read ip))"),
        ("(define-values (op) (open-output-string))\n(repeat N (lambda () (write (list \"s\" 's 1) op)))", "(string-length (get-output-string op))"),
        ("(define-values (op2) (open-output-file \"gc_F.txt\"))\n(repeat N (lambda () (write (list \"s\" 's 1) op2)))\n(set! op2 #f)", "(void)"),
        ("(define-values (op4) (open-output-file \"gc_G.txt\"))\n(repeat N (lambda () (write (list \"s\" 's 1) op4)))", "(begin (display \"end\" op4) (close-output-port op4) (let-values ([(p) (open-input-file \"gc_G.txt\")]) (list (read p) (read p))))"),
        ("(define-values (counter) (let-values ([(n) 0] [(l) (list)]) (lambda () (begin (set! n (+ n 1)) (set! l (cons (vector n) l)) l))))", "(begin (repeat N counter) (counter))"),
        ("(define-values (e) (environment-copy (current-environment)))\n(eval '(define-values (hidden) (list \"a\" N (lambda (x) (cons x hidden)))) e)", "(list (car (eval 'hidden e)) ((eval '(car (cdr (cdr hidden))) e) 5))"),
        ("(current-error-handler ((lambda (v) (lambda (x) (vector v x))) (list \"held\" N)))", "(list 1 (raise 'x))"),
        ("(define-values (rt) (make-record-type-descriptor 'rt #f #f #f #f '#((mutable a) (immutable b))))\n(define-values (rec) ((record-constructor rt) (list N) (string-append \"r\" \"s\")))", "(list ((record-accessor rt 0) rec) ((record-accessor rt 1) rec) ((record-predicate rt) rec) rec)"),
        ("(define-values (stx) (datum->syntax #f (list 'a (vector \"b\" N) '(c . d))))", "(list stx (syntax->datum stx))"),
        ("(define-values (p) (lambda (n) (if (= n 0) (list \"bottom\" n) (let-values ([(a b) (values (vector n) (p (- n 1)))]) (cons a b)))))", "(length (p N))"),
        ("(define-values (va) (lambda xs (if (null? xs) (values) (apply values (map (lambda (x) (list x)) xs)))))", "(call-with-values (lambda () (apply va (iota N (list)))) list)"),
        ("(define-values (g) (eval (list 'lambda (list 'x) (list 'cons (list 'quote (vector N \"q\")) 'x))))", "(g 1)"),
        ("(define-values (bx) (box (box (list N))))\n(set-box! (unbox bx) (string-append \"in\" \"box\"))", "(unbox (unbox bx))"),
        ("(define-values (v) (make-vector N #f))\n(for-each (lambda (i) (vector-set! v (- i 1) (number->string i))) (iota N (list)))", "v"),
        ("(define-values (ls) (vector->list (list->vector (map (lambda (x) (string->list (number->string x))) (iota N (list))))))", "(list (apply append ls) (reverse ls))"),
        ("(define-values (f) (case-lambda [(a) (lambda () a)] [(a . b) (lambda () (cons a b))]))\n(define-values (f1 f2) (values (f (list N)) (f \"x\" (list 1) (list 2))))", "(list (f1) (f2))"),
        ("(current-environment)\n(define-values (nm) (environment-names (current-environment)))", "(< 5 (length nm))"),
        ("(define-values (fo) (open-output-file \"gc_H.bin\"))\n(repeat N (lambda () (fasl-write (list \"s\" 'sym 1 #\\a (vector 1)) fo)))\n(close-output-port fo)\n(define-values (fi) (open-input-file \"gc_H.bin\"))", "(list (fasl-read fi) (fasl-read fi))"),
    ]
    hs = r.sample(holders, r.choice([2, 4, 6]))
    n = r.choice([2, 3, 9, 40, 120])
    sub = lambda s: s.replace("N", str(n)).replace("gc_", "gc%d_" % r.seq)
    t += "\n".join(sub(h[0]) for h in hs) + "\n"
    for _ in range(r.choice([1, 2, 3])):
        t += r.choice(["(length (iota 300 (list)))", "(repeat 30 (lambda () (make-vector 100 0)))", "(repeat 50 (lambda () (string-append \"abc\" \"def\")))",
                       "(repeat 40 (lambda () (string->symbol (number->string 77))))", "(length (map (lambda (x) (vector x x)) (iota 100 (list))))"]) + "\n"
        r.shuffle(hs)
        t += "\n".join(sub(h[1]) for h in hs) + "\n"
    return t


def gather(ck, r, n):
    """-> (kind, job) pairs"""
    out = []

    def add(kind, mode, t, **kw):
        out.append((kind, dict(mode=mode, text=t, **kw)))

    def guard(f):
        try:
            return f()
        except (RecursionError, IndexError):
            return None
    for i in range(n):
        k = i % 16
        g = gencore.Gen(r, size=r.choice([15, 40, 80]), err=(i % 5 == 0))
        if k == 0:
            add("core programs", "evalw", text(guard(g.program) or []))
        elif k == 1:
            add("closure idioms", "evalw", text(gencore.idiom_program(g)))
        elif k == 2:
            add("scopes", "evalw", text(gencore.scope_program(r)))
        elif k == 3:
            add("hashtable histories", "evalw", text(c09.Hist(r, r.choice([10, 20, 40])).forms))
        elif k == 4:
            add("equality", "evalw", text(c10.Group(r).forms))
        elif k == 5:
            add("list, string and vector histories", "evalw", text(c11.history(r, False, r.choice([5, 10, 20]))))
        elif k == 6:
            add("environments", "evalw", text(c13.Gen13(r).program()))
        elif k == 7:
            add("environments", "evalw", text(c13.history(r, 20)[0]))
        elif k == 8:
            add("records", "evalw", text(c14.Types(r).program()))
        elif k == 9:
            h = c15.History(r, "g%d" % i)
            h.program()
            add("ports", "evalw", text(h.forms), stdin=h.stdin, files=h.files)
        elif k == 10:
            add("errors and handlers", "evalw", text(c16.G16(r).program()))
        elif k == 11:
            add("procedures", "evalw", text(c26.program(r)[0]))
        elif k == 12:
            vs = [gendata.data(r, 3) for _ in range(6)]
            add("printer", "evalw", "(define-values (build) (lambda (l t) (if (null? l) t (cons (car l) (build (cdr l) t)))))\n" + "\n".join(c06.expr(v, r) for v in vs))
        elif k == 13:
            rd = r.random() < .5
            add("reader" if rd else "FASL", "readw" if rd else "fasl", gendata.text(r, r.choice([3, 6]), r.choice([2, 3]))[1])
        else:
            r.seq = i
            add("objects held in one place", "evalw", churn(r))
    return out


def same(a, b):
    return (a.kind, a.code, a.out, a.err) == (b.kind, b.code, b.out, b.err)


def stage(ck, s, jobs, scheds, label, limit):
    """runs jobs without collections, then under schedules fitted to the number of their allocations"""
    r = ck.rng

    def run(js, cpu):
        for j in js:
            for p, c in j.get("files", {}).items():
                with open(os.path.join(s.dir, p), "wb") as f:
                    f.write(c.encode("latin1"))
        return s.run([{k: v for k, v in j.items() if k != "files"} for j in js], cpu=cpu, mem=1500)
    ref = run([j for _, j in jobs], 2)
    keep = []
    for j, x in zip(jobs, ref):
        if x.crashed:
            ck.violate("crash", "a program without collections ends with %s\nprogram:\n%s" % (x.brief(), j[1]["text"][-5000:]), j[1]["text"])
        elif x.kind != "exit" or x.stats.get("allocs", 50000) > limit:
            ck.count("programs that do not end, or allocate too much")
        else:
            keep.append((j, x))
    if len(keep) < len(jobs) // 2:
        ck.violate("ends", "most programs do not end: %s" % ref[0].brief())
        return
    freed = 0
    for target, old in scheds:
        js = []
        for (kind, j), x in keep:
            p = max(1, x.stats.get("allocs", 100000) // target)
            js.append(dict(j, mode="%s@%d,%d,%d" % (j["mode"], p, r.randrange(1 << 30), old)))
        if os.environ.get("VP_TIME"):
            print(label, target, len(js), time.time() - ck.t0, flush=True)
        ys = run(js, 60)
        slow = [i for i, y in enumerate(ys) if y.kind == "timeout"]
        for i in slow:
            m, sc = js[i]["mode"].split("@")
            p, seed, o = sc.split(",")
            js[i] = dict(js[i], mode="%s@%d,%s,%s" % (m, 20 * int(p), seed, o))
            ck.count("runs too slow under their schedule")
        for i, y in zip(slow, run([js[i] for i in slow], 100)):
            ys[i] = y
        for ((kind, _), x), j, y in zip(keep, js, ys):
            sched = j["mode"].split("@")[1]
            ck.observe((sched, j["text"]))
            ck.count("%s: %s" % (label, kind))
            ck.count("collections", y.stats.get("gcs", 0))
            freed += y.stats.get("freed", 0)
            ck.count("objects freed" if label != "on minim-gc" else "bytes freed", y.stats.get("freed", 0))
            if sched.startswith("1,"):
                ck.count("runs with a collection at every allocation")
            if y.kind == "memory":
                ck.count("out of budget")
            elif not same(x, y):
                ck.violate("schedule", "a collection is visible to a program (%s, schedule %s)\nprogram:\n%s\nwithout collections: %s\nwith collections: %s" % (
                    kind, sched, j["text"][-5000:], x.brief(), y.brief()), j["text"])
            elif y.stats.get("gcs", 0) > 100:
                ck.sample("%s %s: %d collections, %d objects freed" % (kind, sched, y.stats["gcs"], y.stats["freed"]))
        if len(ck.viol) > 10:
            return
    if not freed:
        raise vp.HarnessError("the schedules freed nothing")


def cli(ck, r, jobs):
    """the real program, with collections from its first allocation on"""
    b = vp.build("quar")
    ps = []
    for i, (k, t) in enumerate(jobs):
        d = os.path.join(ck.scratch, "cli%d" % i)
        os.makedirs(d)
        with open(d + "/p.min", "w") as f:
            f.write("\n".join("(begin (write (quote %s)) (newline))" % x for x in ("a", "(b . c)")) + "\n" + t)
        for per in (0, r.choice([300, 500, 900]), r.choice([2000, 5000])):
            ps.append((i, t, per, subprocess.Popen([b + "/minim", "--no-libs", "p.min"], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                                   env=vp.env_for({"VP_GC_BOOT": "1", "VP_GC_PERIOD": str(per), "VP_GC_SEED": str(r.randrange(1 << 30))}))))
            if len(ps) % 8 == 0:
                for x in ps[-8:]:
                    x[3].wait(timeout=200)
    want = {}
    for i, t, per, p in ps:
        out, err = p.communicate(timeout=200)
        v = (p.returncode, out, err)
        if per == 0:
            want[i] = v
            continue
        ck.observe((i, per))
        ck.count("whole runs of the command-line program with collections")
        if v != want[i]:
            ck.violate("whole", "a collection is visible in a run of minim --no-libs (one collection per %d allocations)\nprogram:\n%s\nwithout: %s\nwith: %s" % (per, t, want[i], v), t)


def minim(ck, r, n):
    """the interpreter on the project's own collector, with collections forced and every access checked"""
    srv = ck.server("mgc", env={"VP_STATS": "1", "VP_GC_PERIOD": "0"})
    try:
        for base in range(0, n, 800):
            jobs = big_stack(lambda: gather(ck, r, min(800, n - base)))
            stage(ck, srv, jobs, [(ck.n(12, 120), 0), (ck.n(4, 30), 0)], "on minim-gc", ck.n(300000, 3000000))
            if len(ck.viol) > 10:
                break
    finally:
        srv.close()


def main():
    ck = vp.Check("C23", RULE)
    r = random.Random(ck.rng.random())
    n = ck.n(440, 9000)
    env = {"VP_STATS": "1", "VP_GC_PERIOD": "0"}
    srv = ck.server("quar", env=env)
    try:
        for base in range(0, n, 1600):
            jobs = big_stack(lambda: gather(ck, r, min(1600, n - base)))
            stage(ck, srv, jobs, [(ck.n(1800, 30000), 1), (ck.n(600, 5000), 1), (ck.n(16, 400), 0)], "core", ck.n(400000, 4000000))
            if len(ck.viol) > 10:
                break
    finally:
        srv.close()
    minim(ck, r, ck.n(128, 3200))
    cli(ck, r, [(k, j["text"]) for k, j in big_stack(lambda: gather(ck, r, 64)) if j["mode"] == "evalw" and "stdin" not in j and k != "errors and handlers"][:ck.n(8, 60)])
    # the base library
    jobs = []

    def lib(k):
        for i in range(k):
            if i % 2:
                f = c11.history(r, True, r.choice([10, 20]))
            else:
                f = c14.LibTypes(r).program()[0]
            jobs.append(("library histories", dict(mode="import", text='(import "lib/base.min")\n' + text(f))))
    big_stack(lambda: lib(ck.n(40, 600)))
    srv = ck.library(variant="quar", env=env)
    try:
        stage(ck, srv, jobs, [(ck.n(1000, 10000), 1), (ck.n(3, 20), 0)], "library", 50000000)
    finally:
        srv.close()
    ck.finish()


if __name__ == "__main__":
    vp.main(main)
