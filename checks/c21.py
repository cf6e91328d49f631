#!/usr/bin/env python3
import _p
import random, functools
import vp
from sexp import *

RULE = ("random histories of sort, set, enumeration, promise and generics operations, every result and the state of every argument compared with a model; "
        "a case is one history")
S = Sym


class H:
    """a history: Minim forms and the text they must print"""

    def __init__(self, r):
        self.r, self.forms, self.out, self.n = r, [], [], 0

    def do(self, text):
        self.forms.append(text)

    def show(self, text, want):
        self.n += 1
        self.forms.append("(write %s) (newline)" % text)
        self.out.append(want + "\n")


def B(x):
    return "#t" if x else "#f"


# ---- sort

ORDERS = [
    ("(lambda (a b) (< (car a) (car b)))", lambda a, b: a[0] < b[0]),
    ("(lambda (a b) (> (car a) (car b)))", lambda a, b: a[0] > b[0]),
    ("(lambda (a b) (< (car (cdr a)) (car (cdr b))))", lambda a, b: a[1] < b[1]),
    ("(lambda (a b) (< (* (car a) (car a)) (* (car b) (car b))))", lambda a, b: a[0] ** 2 < b[0] ** 2),
    ("(lambda (a b) #f)", lambda a, b: False),
    ("(lambda (a b) (or (< (car a) (car b)) (and (= (car a) (car b)) (> (car (cdr a)) (car (cdr b))))))", lambda a, b: a[0] < b[0] or a[0] == b[0] and a[1] > b[1]),
    ("(lambda (a b) (and (< (car a) 0) (>= (car b) 0)))", lambda a, b: a[0] < 0 <= b[0]),
]


def ksort(xs, less):
    return sorted(xs, key=functools.cmp_to_key(lambda a, b: -1 if less(a, b) else 1 if less(b, a) else 0))


def sorts(h, ck):
    r = h.r
    for _ in range(r.choice([2, 4, 6])):
        n = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 40, 64, 65, 100] + [300] * (r.random() < .1))
        w = r.choice([1, 2, 3, 5, 20, 1000])
        xs = [(r.randrange(-w, w + 1), r.randrange(w + 1), i) for i in range(n)]
        k = r.random()
        if k < .1:
            xs.sort()
        elif k < .2:
            xs.sort(reverse=True)
        elif k < .3 and n:
            i = r.randrange(n)
            xs = xs[i:] + xs[:i]
        t, less = r.choice(ORDERS)
        vec = r.random() < .4
        W = lambda ys: ("#(" if vec else "(") + " ".join("(%d %d %d)" % y for y in ys) + ")"
        v = "s%d" % len(h.forms)
        h.do("(define %s (%s %s))" % (v, "vector" if vec else "list", " ".join("(list %d %d %d)" % x for x in xs)) if r.random() < .7 or n > 60 else
             "(define %s '%s)" % (v, W(xs)))
        if r.random() < .3:
            # the order only ever sees members of the sequence, and the members are not copied
            h.do("(define %s-seen 0)" % v)
            if not any("(define (mem-eq? " in f for f in h.forms):
                h.do("(define (mem-eq? x xs) (and (pair? xs) (or (eq? x (car xs)) (mem-eq? x (cdr xs)))))")
            h.show("(let ([less %s]) (let ([o (sort %s (lambda (a b) (set! %s-seen (+ %s-seen 1)) (unless (and (mem-eq? a %s) (mem-eq? b %s)) (display \"stranger\")) (less a b)))]) o))" % (
                t, v, v, v, *((v if not vec else "(vector->list %s)" % v,) * 2)), W(ksort(xs, less)))
            ck.count("sorts with a watched order")
        else:
            h.show("(sort %s %s)" % (v, t), W(ksort(xs, less)))
        h.show(v, W(xs))
        ck.count("sorts")
        ck.count("elements sorted", n)
    if r.random() < .4:
        xs = [r.randrange(-50, 50) for _ in range(r.randrange(60))]
        h.show("(sort '(%s) <)" % " ".join(map(str, xs)), "(%s)" % " ".join(map(str, sorted(xs))))
        h.show("(vector->list (sort (vector %s) >))" % " ".join(map(str, xs)), "(%s)" % " ".join(map(str, sorted(xs, reverse=True))))


# ---- sets

ATOMS = ["1", "2", "-3", "0", "100000000000", "'a", "'b", "'||x".replace("||", ""), "\"a\"", "\"b\"", "\"\"", "#\\a", "#\\space", "#t", "#f", "'()", "(list 1 2)", "(list 1 (list 2))",
         "(vector 1 2)", "(vector)", "\"1\"", "(box 1)", "(cons 1 2)", "(list \"a\")", "#\\1", "'-3x", "(list)", "(cons 1 (list 2))", "(string #\\a)"]
SAME = {"(list)": "'()", "(cons 1 (list 2))": "(list 1 2)", "(string #\\a)": "\"a\""}
NUMS = [str(i) for i in range(-6, 40)]


def sets(h, ck):
    r = h.r
    nums = r.random() < .4
    univ = r.sample(NUMS if nums else ATOMS, r.choice([3, 6, 10, 18]))
    key = lambda x: SAME.get(x, x)
    seen, uq = set(), []
    for x in univ:
        if key(x) not in seen:
            seen.add(key(x))
            uq.append(x)
    univ = uq
    h.do("(define univ (list %s))" % " ".join(univ))
    h.do("(define (in s) (map (lambda (x) (if (set-member? s x) 1 0)) univ))")
    h.do("(define (ok s) (and (= (length (set->list s)) (set-count s)) (andmap (lambda (x) (set-member? s x)) (set->list s)) (andmap (lambda (x) (member x univ) #t) (set->list s))))")
    vs = {}
    keys = [key(x) for x in univ]

    def state(v):
        s = vs[v]
        h.show("(list (set-count %s) (in %s) (ok %s) (set-empty? %s))" % ((v,) * 4), "(%d (%s) #t %s)" % (len(s), " ".join("1" if k in s else "0" for k in keys), B(not s)))

    def new(v, text, val):
        h.do("(define %s %s)" % (v, text))
        vs[v] = val
        state(v)

    def one(x=None):
        x = x or r.choice(univ)
        alt = [a for a, b in SAME.items() if b == key(x)] + [key(x)]
        return r.choice(alt), key(x)
    for i in range(r.choice([1, 2, 3])):
        xs = [one() for _ in range(r.randrange(0, 8))]
        new("s%d" % i, "(make-set %s)" % " ".join(x for x, _ in xs), {k for _, k in xs})
    for _ in range(r.choice([10, 20, 40])):
        k = r.randrange(20)
        v = r.choice(list(vs))
        if k < 4:
            x, c = one()
            h.do("(set-add! %s %s)" % (v, x))
            vs[v].add(c)
            ck.count("set: add and remove")
            state(v)
        elif k < 8:
            x, c = one()
            h.do("(set-remove! %s %s)" % (v, x)) if r.random() < .5 or c in vs[v] else h.do("(when (set-member? %s %s) (set-remove! %s %s))" % (v, x, v, x))
            vs[v].discard(c)
            ck.count("set: add and remove")
            state(v)
        elif k == 8:
            n = "s%d" % len(vs)
            new(n, "(set-copy %s)" % v, set(vs[v]))
        elif k == 9 and r.random() < .4:
            h.do("(set-clear! %s)" % v)
            vs[v].clear()
            state(v)
        elif k < 15:
            args = [r.choice(list(vs)) for _ in range(r.choice([0, 1, 1, 2, 2, 2, 3, 4]))]
            op = r.choice(["union", "intersect", "subtract", "symmetric-difference"])
            if op in ("subtract", "symmetric-difference") and not args:
                args = [v]
            ss = [set(vs[a]) for a in args]
            if not ss:
                res = set()
            else:
                f = {"union": set.union, "intersect": set.intersection, "subtract": set.difference, "symmetric-difference": set.symmetric_difference}[op]
                res = functools.reduce(f, ss)
            new("s%d" % len(vs), "(set-%s %s)" % (op, " ".join(args)), set(res))
            for a in args:
                state(a)
            ck.count("set: " + op)
        elif k == 15:
            a, b = r.choice(list(vs)), r.choice(list(vs))
            x, y = vs[a], vs[b]
            h.show("(list (subset? %s %s) (proper-subset? %s %s) (set=? %s %s) (equal? %s %s))" % ((a, b) * 4),
                   "(%s %s %s %s)" % (B(x <= y), B(x < y), B(x == y), B(x == y)))
            ck.count("set: comparisons")
        elif k == 16:
            if nums:
                h.show("(sort (set-map (lambda (x) (* 2 x)) %s) <)" % v, "(%s)" % " ".join(map(str, sorted(2 * int(x) for x in vs[v]))))
                h.show("(let ([n 0]) (set-for-each (lambda (x) (set! n (+ n x))) %s) n)" % v, str(sum(int(x) for x in vs[v])))
            else:
                h.show("(let ([n 0]) (set-for-each (lambda (x) (set! n (+ n (if (set-member? %s x) 1 1000)))) %s) (list n (length (set-map (lambda (x) x) %s))))" % (v, v, v), "(%d %d)" % (len(vs[v]), len(vs[v])))
            ck.count("set: traversals")
            state(v)
        elif k == 17:
            # results do not share state with the arguments
            n = "s%d" % len(vs)
            x, c = one()
            op = r.choice(["(set-union %s)", "(set-intersect %s)", "(set-subtract %s)", "(set-symmetric-difference %s)", "(set-copy %s)"]) % v
            new(n, op, set(vs[v]))
            if c in vs[n]:
                h.do("(set-remove! %s %s)" % (n, x))
                vs[n].discard(c)
            else:
                h.do("(set-add! %s %s)" % (n, x))
                vs[n].add(c)
            state(n)
            state(v)
            ck.count("set: independence")
        elif k == 18:
            a, b = r.choice(list(vs)), r.choice(list(vs))
            h.show("(let ([ss (make-set %s)]) (list (set-count ss) (set-member? ss %s)))" % (a, b), "(1 %s)" % B(vs[a] == vs[b]))
            ck.count("set: sets as members")
        else:
            state(v)


# ---- enumerations

def enums(h, ck):
    r = h.r
    names = ["red", "green", "blue", "a", "b", "c", "x1", "y", "->z", "q?", "w!", "e", "u0", "u1", "u2", "u3"]
    es, ks = {}, []
    for i in range(r.choice([1, 2, 3])):
        u = r.sample(names, r.choice([0, 1, 2, 3, 5, 8, 12]))
        e = "e%d" % i
        h.do("(define %s (make-enumeration '(%s)))" % (e, " ".join(u)))
        es[e] = (i, u, u)
        h.do("(define k%d (enum-set-constructor %s))" % (i, e))
        h.do("(define i%d (enum-set-indexer %s))" % (i, e))
        ks.append((i, u))

    def L(xs):
        return "(%s)" % " ".join(xs)

    def state(e):
        h.show("(list (enum-set->list %s) (enum-set->list (enum-set-universe %s)) (enum-set? %s))" % (e, e, e), "(%s %s #t)" % (L(es[e][2]), L(es[e][1])))
        ck.count("enum: states")
    for e in list(es):
        state(e)
    for _ in range(r.choice([6, 12, 25])):
        k = r.randrange(9)
        n = "e%d" % (100 + len(es))
        a = r.choice(list(es))
        i, u, m = es[a]
        if k < 3:
            i, u = r.choice(ks)
            xs = [r.choice(u or names) if r.random() < .85 else r.choice(names) for _ in range(r.randrange(0, 9))]
            h.do("(define %s (k%d '%s))" % (n, i, L(xs)))
            es[n] = (i, u, [x for x in u if x in xs])
            state(n)
        elif k == 3:
            i, u = r.choice(ks)
            h.show("(map i%d '%s)" % (i, L(names)), "(%s)" % " ".join(str(u.index(x)) if x in u else "#f" for x in names))
            h.show("(andmap (lambda (x) (eq? x (list-ref '%s (i%d x)))) '%s)" % (L(u), i, L(u)), "#t")
            ck.count("enum: indices")
        elif k == 4:
            x = r.choice(names)
            h.show("(list (enum-set-member? '%s %s) (enum-set-member? '%s (enum-set-complement %s)))" % (x, a, x, a), "(%s %s)" % (B(x in m), B(x in u and x not in m)))
            ck.count("enum: membership")
        elif k == 5:
            b = r.choice(list(es))
            j, u2, m2 = es[b]
            h.show("(list (enum-set-subset? %s %s) (enum-set=? %s %s))" % (a, b, a, b),
                   "(%s %s)" % (B(set(u) <= set(u2) and set(m) <= set(m2)), B(set(u) == set(u2) and set(m) == set(m2))))
            ck.count("enum: comparisons")
        elif k == 6:
            op = r.choice(["union", "intersect", "difference"])
            b = r.choice([x for x in es if es[x][0] == i])
            m2 = es[b][2]
            f = {"union": lambda x: x in m or x in m2, "intersect": lambda x: x in m and x in m2, "difference": lambda x: x in m and x not in m2}[op]
            h.do("(define %s (enum-set-%s %s %s))" % (n, op, a, b))
            es[n] = (i, u, [x for x in u if f(x)])
            for e in (n, a, b):
                state(e)
            ck.count("enum: " + op)
        elif k == 7:
            h.do("(define %s (enum-set-complement %s))" % (n, a))
            es[n] = (i, u, [x for x in u if x not in m])
            state(n)
            state(a)
        else:
            b = r.choice(list(es))
            j, u2, m2 = es[b]
            h.do("(define %s (enum-set-projection %s %s))" % (n, a, b))
            es[n] = (j, u2, [x for x in u2 if x in m])
            state(n)
            state(a)
            ck.count("enum: projection")
    if r.random() < .6:
        u = r.sample(names, r.choice([1, 2, 3, 6]))
        t = "en%d" % len(h.forms)
        h.do("(define-enumeration %s (%s) %s-set)" % (t, " ".join(u), t))
        for _ in range(3):
            x = r.choice(u)
            h.show("(%s %s)" % (t, x), x)
            xs = [r.choice(u) for _ in range(r.randrange(0, 5))]
            h.show("(enum-set->list (%s-set %s))" % (t, " ".join(xs)), L([y for y in u if y in xs]))
        ck.count("enum: syntactic layer")


# ---- promises

def promises(h, ck):
    r = h.r
    h.do("(define n 0) (define (bump k) (set! n (+ n k)) n)")
    n = 0
    ps = []         # [kind, value or None, add, refers to]

    def force(i):
        """the value of promise i"""
        nonlocal n
        p = ps[i]
        if p["v"] is None:
            if p["ref"] is not None and p["how"] == "force":
                v = force(p["ref"])
                n += p["k"]
                p["v"] = v + n
            elif p["ref"] is not None:
                p["v"] = ("p", p["ref"])
                n += p["k"]
            else:
                n += p["k"]
                p["v"] = n
        return p["v"]

    def lazy(i):
        v = force(i)
        while isinstance(v, tuple):
            v = force(v[1])
        return v
    for i in range(r.choice([2, 4, 7])):
        k = r.randrange(1, 10)
        ref = r.randrange(i) if i and r.random() < .5 else None
        how = r.choice(["force", "promise"])
        if ref is not None and how == "force" and ps[ref]["deep"]:
            how = "promise"
        if ref is None:
            body = "(bump %d)" % k
        elif how == "force":
            body = "(let ([v (force p%d)]) (+ v (bump %d)))" % (ref, k)
        else:
            body = "(bump %d) p%d" % (k, ref)
        h.do("(define p%d %s)" % (i, "(delay %s)" % body if r.random() < .7 else "(make-promise (lambda () %s))" % body))
        ps.append(dict(v=None, k=k, ref=ref, how=how, deep=how == "promise" and ref is not None))
        h.show("(list n (promise? p%d) (promise-forced? p%d))" % (i, i), "(%d #t #f)" % n)
    for _ in range(r.choice([5, 10, 20])):
        i = r.randrange(len(ps))
        k = r.randrange(4)
        if k == 0:
            h.show("(promise-forced? p%d)" % i, B(ps[i]["v"] is not None))
        elif k == 1:
            v = lazy(i)
            h.show("(lazy p%d)" % i, str(v))
        elif k == 2:
            v = force(i)
            if isinstance(v, tuple):
                h.show("(eq? (force p%d) p%d)" % (i, v[1]), "#t")
            else:
                h.show("(force p%d)" % i, str(v))
        else:
            v = lazy(i)
            h.show("(list (lazy p%d) (lazy p%d) (promise-forced? p%d))" % (i, i, i), "(%d %d #t)" % (v, v))
        h.show("n", str(n))
        ck.count("promise: operations")


# ---- generics

def generics(h, ck):
    r = h.r
    gs = {}
    u = len(h.forms)
    for i in range(r.choice([1, 2])):
        ms = []
        for j in range(r.choice([1, 2, 3, 4])):
            a, rest = r.choice([(1, False), (2, False), (3, False), (1, True), (0, False), (0, True)])
            ms.append(("m%d-%d" % (i, j), a, rest))
        g = "gg%d-%d" % (u, i)
        def fm(a, rest):
            return " ".join("a%d" % x for x in range(a)) + (" . r" if rest else "")
        h.do("(define-generics %s %s)" % (g, " ".join("[%s %s]" % (m, fm(a, rest)) for m, a, rest in ms)))
        gs[g] = ms
        for m, a, rest in ms:
            h.do("(define get-%s-%s (generics-accessor gen:%s '%s))" % (g, m, g, m))
    ts = {}

    def impl(a, rest, tag):
        return "(lambda (%s%s) (list %d %s%s))" % (" ".join("a%d" % x for x in range(a)), " . r" if rest else "", tag, " ".join("a%d" % x for x in range(a)), " r" if rest else "") \
            if a or not rest else "(lambda r (list %d r))" % tag
    tag = 0
    for i in range(r.choice([1, 2, 3])):
        t = "rt%d-%d" % (u, i)
        have = {}
        cl = []
        for g, ms in gs.items():
            if r.random() < .6:
                tags = []
                for m, a, rest in ms:
                    tag += 1
                    tags.append(tag)
                cl.append("(methods gen:%s %s)" % (g, " ".join(impl(a, rest, x) for (m, a, rest), x in zip(ms, tags))))
                have[g] = tags
        parent = r.choice(list(ts)) if ts and r.random() < .4 else None
        h.do("(define-record-type %s (fields f%d)%s %s)" % (t, i, " (parent %s)" % parent if parent else "", " ".join(cl)))
        ts[t] = have
    for _ in range(r.choice([6, 12])):
        t = r.choice(list(ts))
        g = r.choice(list(gs))
        if r.random() < .2:
            tags = []
            for m in gs[g]:
                tag += 1
                tags.append(tag)
            h.do("(record-type-add-generic! %s gen:%s (list %s))" % (t, g, " ".join(impl(a, rest, x) for (m, a, rest), x in zip(gs[g], tags))))
            ts[t][g] = tags
            ck.count("generics: methods replaced or added")
        h.show("(if (gen:%s? %s) #t #f)" % (g, t), B(g in ts[t]))
        if g in ts[t]:
            j = r.randrange(len(gs[g]))
            m, a, rest = gs[g][j]
            k = a + (r.choice([0, 1, 3]) if rest else 0)
            args = list(range(10, 10 + k))
            want = "(%s)" % " ".join([str(ts[t][g][j])] + [str(x) for x in args[:a]] + (["(%s)" % " ".join(str(x) for x in args[a:])] if rest else []))
            h.show("((get-%s-%s %s)%s)" % (g, m, t, "".join(" %d" % x for x in args)), want)
            ck.count("generics: dispatches")


def main():
    ck = vp.Check("C21", RULE)
    r = ck.rng
    kinds = [sorts, sets, sets, enums, promises, generics]
    srv = ck.library()
    try:
        total = ck.n(420, 9000)
        for base in range(0, total, 400):
            hs = []
            for k in range(base, min(total, base + 400)):
                h = H(r)
                kinds[k % len(kinds)](h, ck)
                hs.append(h)
            texts = ['(import "lib/base.min")\n' + "\n".join(h.forms) + "\n" for h in hs]
            for h, t, x in zip(hs, texts, srv.run([dict(mode="import", text=t) for t in texts], cpu=40)):
                ck.observe(t)
                ck.count("observations", h.n)
                want = "".join(h.out)
                got = x.out.decode("latin1")
                if x.crashed or x.kind != "exit" or x.code or x.err or got != want:
                    ls, gl = want.split("\n"), got.split("\n")
                    i = next((i for i, (a, b) in enumerate(zip(ls, gl)) if a != b), min(len(ls), len(gl)))
                    ck.violate("history", "observation %d: expected %r\nprogram\n%s\nobserved %s (line %r)" % (
                        i, ls[i] if i < len(ls) else None, t[-5000:], x.brief()[:1500], gl[i] if i < len(gl) else None), t)
                elif h.n % 40 == 7:
                    ck.sample(t[:500])
            if len(ck.viol) > 5:
                break
        # long inputs
        for n in ([2000, 5000] if not ck.thorough else [2000, 5000, 20000, 100000]):
            t = '(import "lib/base.min")\n(define (mk i x) (if (= i 0) \'() (cons (cons (modulo x 97) i) (mk (- i 1) (modulo (+ (* x 75) 74) 65537)))))\n' \
                '(define l (mk %d 1))\n(define s (sort l (lambda (a b) (< (car a) (car b)))))\n' \
                '(define (ok? s) (or (null? (cdr s)) (and (or (< (caar s) (caar (cdr s))) (and (= (caar s) (caar (cdr s))) (> (cdar s) (cdar (cdr s))))) (ok? (cdr s)))))\n' \
                '(write (list (length s) (ok? s) (equal? l (mk %d 1))))' % (n, n)
            x = srv.run([dict(mode="import", text=t)], cpu=200)[0]
            ck.observe(("long", n))
            if x.kind != "exit" or x.code or x.out != b"(%d #t #t)" % n:
                ck.violate("long", "sort of %d elements: observed %s\n%s" % (n, x.brief(), t), t)
    finally:
        srv.close()
    ck.finish()


if __name__ == "__main__":
    vp.main(main)
