#!/usr/bin/env python3
import _p
import random
import vp, mon, rdr
from sexp import *

RULE = ("random clauses of syntax-case, syntax-rules and with-syntax over patterns with literals, wildcards, dotted tails, vectors and ellipses at any depth, applied to inputs made from the "
        "patterns and to near misses of them, against an independent matcher and instantiator; ill-formed patterns, templates and uses must be rejected; a case is one program")
S = Sym
ELL = S("...")
WILD = S("_")
LITS = [S(x) for x in ("lit", "=>", "else*", "k")]
IDS = LITS + [S(x) for x in ("foo", "bar", "p0", "p1", "if", "quote", "x")]
Q1 = S("quote")


def atom(r):
    return r.choice([lambda: r.choice(IDS), lambda: r.choice(IDS), lambda: r.randrange(-5, 6), lambda: r.random() < .5, lambda: Str(r.choice(["", "a", "b c"])), lambda: Char(r.choice("ab0")),
                     lambda: NIL])()


def datum(r, d):
    if d <= 0 or r.random() < .4:
        return atom(r)
    xs = [datum(r, d - 1) for _ in range(r.randrange(4))]
    if r.random() < .2:
        return Vec(xs)
    t = atom(r) if xs and r.random() < .15 else NIL
    return lst(xs, t if not isinstance(t, (Pair, Vec)) else NIL)


def same(a, b):
    return write(a) == write(b)


class Gen:
    def __init__(self, r, lits):
        self.r, self.lits, self.n, self.vars = r, lits, 0, {}
        self.tail = set()

    def pat(self, d, depth=0, top=False):
        r = self.r
        x = r.random()
        if not top and (d <= 0 or x < .45):
            y = r.random()
            if y < .55:
                self.n += 1
                v = S("p%d" % self.n)
                self.vars[v] = depth
                return v
            if y < .65:
                return WILD
            if y < .75 and self.lits:
                return r.choice(self.lits)
            a = atom(r)
            return NIL if isinstance(a, Sym) else a
        n = r.randrange(4) if not top else r.randrange(1, 5)
        e = r.randrange(n) if n and r.random() < .5 else None
        xs = []
        for i in range(n):
            xs.append(self.pat(d - 1, depth + (i == e)))
            if i == e:
                xs.append(ELL)
        if not top and r.random() < .25:
            return Vec(xs)
        if xs and r.random() < .25:
            t = self.pat(0, depth)
            self.tail.add(write(t))
            return lst(xs, t)
        return lst(xs)

    def fit(self, p, miss=0.0):
        """a datum that matches p, most of the time"""
        r = self.r
        if r.random() < miss:
            return datum(r, 2)
        if isinstance(p, Sym):
            return p if p in self.lits else datum(r, 2)
        if isinstance(p, Pair):
            xs, t = parts(p)
            t = self.fit(t, miss)
            return join(self.fits(xs, miss), t)
        if isinstance(p, Vec):
            return Vec(self.fits(p.v, miss))
        return p

    def fits(self, xs, miss):
        r, out = self.r, []
        for i, x in enumerate(xs):
            if x == ELL:
                continue
            k = r.choice([0, 1, 2, 3, 5]) if i + 1 < len(xs) and xs[i + 1] == ELL and isinstance(xs[i + 1], Sym) else 1
            out += [self.fit(x, miss) for _ in range(k)]
        if out and r.random() < miss / 2:
            del out[r.randrange(len(out))]
        if r.random() < miss / 2:
            out.insert(r.randrange(len(out) + 1), datum(r, 1))
        return out

    def template(self, d, env, depth=0):
        """a template; env: variable -> depth"""
        r = self.r
        ready = [v for v in env if env[v] <= depth]
        if d <= 0 or r.random() < .35:
            if ready and r.random() < .8:
                return r.choice(ready)
            a = atom(r)
            return a if a not in env and not (isinstance(a, Sym) and a == ELL) else NIL
        xs = []
        for _ in range(r.randrange(1, 4)):
            deep = [v for v in env if env[v] > depth]
            if deep and r.random() < .6:
                # one variable drives the repetition; the others of the same depth may have another number of parts
                v = r.choice(deep)
                e = {w: k for w, k in env.items() if k <= depth or w == v or r.random() < .15}
                x = self.template(d - 1, e, depth + 1)
                if not any(env[w] > depth for w in names(x) if w in env):
                    x = lst([x, self.reach(v, env[v], depth + 1)])
                xs += [x, ELL]
            else:
                xs.append(self.template(d - 1, env, depth))
        if r.random() < .2:
            return Vec(xs)
        return lst(xs, r.choice(ready) if ready and r.random() < .2 else NIL)

    def reach(self, v, k, depth):
        x = v
        for _ in range(k - depth):
            x = lst([x, ELL])
        return x


def names(x):
    if isinstance(x, Sym):
        return [x]
    if isinstance(x, Pair):
        xs, t = parts(x)
        return [n for y in xs + [t] for n in names(y)]
    if isinstance(x, Vec):
        return [n for y in x.v for n in names(y)]
    return []


def parts(p):
    xs = []
    while isinstance(p, Pair):
        xs.append(p.a)
        p = p.d
    return xs, p


def join(xs, t):
    return lst(xs, t)


class No(Exception):
    pass


class Bad(Exception):
    """the template is wrong: (message)"""


class Unknown(Exception):
    pass


def variables(p, lits):
    if isinstance(p, Sym):
        return [] if p in lits or p in (WILD, ELL) else [p]
    if isinstance(p, Pair):
        xs, t = parts(p)
        return [v for x in xs + [t] for v in variables(x, lits)]
    if isinstance(p, Vec):
        return [v for x in p.v for v in variables(x, lits)]
    return []


def match(p, d, lits, env):
    if isinstance(p, Sym):
        if p in lits:
            if not (isinstance(d, Sym) and d == p):
                raise No
        elif p != WILD:
            env[p] = d
    elif isinstance(p, Vec):
        if not isinstance(d, Vec):
            raise No
        seq(p.v, None, d.v, None, lits, env)
    elif isinstance(p, Pair):
        xs, t = parts(p)
        ds, dt = parts(d)
        if ELL in [x for x in xs if isinstance(x, Sym)]:
            seq(xs, t, ds, dt, lits, env)
        else:
            if len(ds) < len(xs):
                raise No
            seq(xs, t, ds[:len(xs)], lst(ds[len(xs):], dt), lits, env)
    elif isinstance(d, (Pair, Vec, Sym)) or not same(p, d):
        raise No


def seq(xs, t, ds, dt, lits, env):
    k = next((i for i, x in enumerate(xs) if isinstance(x, Sym) and x == ELL), None)
    if k is None:
        if len(xs) != len(ds):
            raise No
        for x, y in zip(xs, ds):
            match(x, y, lits, env)
    else:
        before, sub, after = xs[:k - 1], xs[k - 1], xs[k + 1:]
        n = len(ds) - len(before) - len(after)
        if n < 0:
            raise No
        for x, y in zip(before, ds):
            match(x, y, lits, env)
        rows = []
        for y in ds[len(before):len(before) + n]:
            e = {}
            match(sub, y, lits, e)
            rows.append(e)
        for v in variables(sub, lits):
            env[v] = [e[v] for e in rows]
        for x, y in zip(after, ds[len(before) + n:]):
            match(x, y, lits, env)
    if t is not None:
        match(t, dt, lits, env)


def check_template(t, depths, depth=0):
    """static rejection of a template"""
    if isinstance(t, Sym):
        if depths.get(t, 0) > depth:
            raise Bad("missing ellipses")
        return
    if isinstance(t, Vec):
        xs, tl = t.v, NIL
    elif isinstance(t, Pair):
        xs, tl = parts(t)
    else:
        return
    i = 0
    while i < len(xs):
        x = xs[i]
        if i + 1 < len(xs) and isinstance(xs[i + 1], Sym) and xs[i + 1] == ELL:
            check_template(x, depths, depth + 1)
            if not any(depths.get(v, -1) > depth for v in names(x)):
                raise Bad("ellipsis without a variable")
            i += 2
        else:
            check_template(x, depths, depth)
            i += 1
    check_template(tl, depths, depth)


def inst(t, env, dep):
    if isinstance(t, Sym):
        return env[t] if t in env else t
    if isinstance(t, Vec):
        return Vec(insts(t.v, env, dep))
    if isinstance(t, Pair):
        xs, tl = parts(t)
        return join(insts(xs, env, dep), inst(tl, env, dep))
    return t


def insts(xs, env, dep):
    out, i = [], 0
    while i < len(xs):
        if i + 1 < len(xs) and isinstance(xs[i + 1], Sym) and xs[i + 1] == ELL:
            vs = [v for v in names(xs[i]) if dep.get(v, 0) > 0]
            n = {len(env[v]) for v in vs}
            if len(n) > 1:
                raise Unknown("lengths")
            for j in range(n.pop()):
                out.append(inst(xs[i], dict(env, **{v: env[v][j] for v in vs}), dict(dep, **{v: dep[v] - 1 for v in vs})))
            i += 2
        else:
            out.append(inst(xs[i], env, dep))
            i += 1
    return out


def fender(g, r):
    """(text, meaning)"""
    v0 = [v for v, k in g.vars.items() if k == 0 and write(v) not in g.tail]
    v1 = [v for v, k in g.vars.items() if k == 1]
    x = r.random()
    if v0 and x < .4:
        v = r.choice(v0)
        return r.choice([("(identifier? #'%s)" % v, lambda e: isinstance(e[v], Sym)), ("(not (identifier? #'%s))" % v, lambda e: not isinstance(e[v], Sym)),
                         ("(null? (syntax-e #'%s))" % v, lambda e: e[v] is NIL), ("(integer? (syntax-e #'%s))" % v, lambda e: isinstance(e[v], int) and not isinstance(e[v], bool)),
                         ("(not (equal? (syntax->datum #'%s) 1))" % v, lambda e: not (isinstance(e[v], int) and not isinstance(e[v], bool) and e[v] == 1))])
    if v1 and x < .7:
        v, k = r.choice(v1), r.randrange(3)
        return r.choice([("(= (length (syntax->list #'(%s ...))) %d)" % (v, k), lambda e: len(e[v]) == k), ("(andmap identifier? (syntax->list #'(%s ...)))" % v, lambda e: all(isinstance(y, Sym) for y in e[v])),
                         ("(and (> (length (syntax->list #'(%s ...))) %d) (not (equal? 1 2)))" % (v, k), lambda e: len(e[v]) > k)])
    return r.choice([("#t", lambda e: True), ("#f", lambda e: False), ("0", lambda e: True)])


class Case:
    """clauses applied to some inputs"""

    def __init__(self, r, ck):
        self.r = r
        self.mode = r.choice(["macro", "macro", "run", "rules", "with"])
        self.lits = r.sample(LITS, r.choice([0, 0, 1, 2]))
        cls = []
        for i in range(1 if self.mode == "with" else r.choice([1, 2, 3, 4])):
            g = Gen(r, self.lits if self.mode != "with" else [])
            p = g.pat(r.choice([1, 2, 3]), top=True)
            f = fender(g, r) if self.mode in ("macro", "run") and r.random() < .35 else None
            t = lst([S("c%d" % i), g.template(r.choice([1, 2, 3]), g.vars), *[g.reach(v, k, 0) for v, k in g.vars.items() if r.random() < .5]])
            cls.append((p, f, t, g))
        if self.mode == "with":
            self.lits = []
        elif r.random() < .3:
            cls.append((WILD, None, lst([S("rest")]), Gen(r, self.lits)))
        self.cls = cls
        ins = []
        for _ in range(r.choice([1, 2, 3])):
            p, f, t, g = r.choice(cls)
            ins.append(g.fit(p, r.choice([0, 0, .1, .2])) if r.random() < .9 else datum(r, 3))
        if self.mode in ("macro", "rules"):
            ins = [x if isinstance(x, (Pair, Const)) else lst([x]) for x in ins]
        self.ins = ins

    def text(self):
        W = write
        L = "(%s)" % " ".join(self.lits)
        tp = "#'%s" if self.mode in ("run", "with") else "#'(quote %s)"
        out = []
        if self.mode == "rules":
            out.append("(define-syntax mm (syntax-rules %s %s))" % (L, " ".join("[%s %s]" % ("(_ . %s)" % W(p), "(quote %s)" % W(t)) for p, f, t, g in self.cls)))
        elif self.mode == "with":
            pass
        else:
            cl = " ".join("[%s %s%s]" % (W(p) if self.mode == "run" else "(%s . %s)" % (self.r.choice(["_", "mm"]) if "mm" not in L else "_", W(p)), f[0] + " " if f else "", tp % W(t)) for p, f, t, g in self.cls)
            out.append("(define-syntax (mm stx) (syntax-case stx %s %s))" % (L, cl) if self.mode == "macro" else "(define (mm stx) (syntax-case stx %s %s))" % (L, cl))
        for x in self.ins:
            if self.mode == "with":
                p, f, t, g = self.cls[0]
                ps, tl = parts(p)
                out.append("(write (syntax->datum (with-syntax ([%s (quote-syntax %s)]) #'%s)))" % (W(p), W(x), W(t)))
            elif self.mode == "run":
                out.append("(write (syntax->datum (mm (quote-syntax %s))))" % W(x))
            else:
                out.append("(write (mm . %s))" % W(x))
            out.append("(newline)")
        return '(import "lib/base.min")\n' + "\n".join(out) + "\n"

    def want(self):
        """(output, error?)  Macros are all expanded before anything runs."""
        for p, f, t, g in self.cls:
            try:
                check_template(t, g.vars)
            except Bad:
                return "", True
        out, err = [], False
        self.picked = []
        for x in self.ins:
            for i, (p, f, t, g) in enumerate(self.cls):
                env = {}
                try:
                    match(p, x, self.lits, env)
                except No:
                    continue
                if f and not f[1](env):
                    continue
                self.picked.append((i, len(self.cls), f))
                out.append(write(inst(t, env, g.vars)) + "\n")
                break
            else:
                err = True
                break
        return ("" if err and self.mode in ("macro", "rules") else "".join(out)), err


# ---- programs that must be rejected before anything of them runs

PBAD = ["(... a)", "(_ a ... b ...)", "(_ (... a))", "(_ #(a ... b ...))", "(_ #(... a))", "(_ ((a ... b ... ) c))", "(_ (a ... b c ... . d))"]
TBAD = [("(_ a ...)", "a"), ("(_ a ...)", "(1 a)"), ("(_ (a ...) ...)", "(a ...)"), ("(_ (a ...) ...)", "a"), ("(_ a)", "(a ...)"), ("(_ a)", "(1 (2 a ...))"), ("(_ a ...)", "((a ...) ...)"),
        ("(_ a b ...)", "((b a ...) ...)"), ("(_ a)", "#(a ...)"), ("(_ a ...)", "#(a)"), ("(_ a ...)", "(1 ...)"), ("(_ a ...)", "(a ... ...)"), ("(_ a ...)", "((1 b) ... a ...)"),
        ("(_ (a b ...) ...)", "((a b) ...)"), ("(_ (a b ...) ...)", "((a b ...))"), ("(_ #(a ...) ...)", "(a ...)"), ("(_ a ... . b)", "(b ...)"), ("(_ a ... . b)", "(b . a)"), ("(_ (a ...) ...)", "(a ... ...)"),
        ("(_ a)", "(1 2 . #(a ...))"), ("(_ ((a ...) ...) ...)", "((a ...) ...)"), ("(_ ((a ...) ...) ...)", "(((a) ...) ...)")]
FBAD = ["(syntax-case)", "(syntax-case stx)", "(syntax-case stx ())", "(syntax-case stx () (x))", "(syntax-case stx () (x 1 2 3))", "(syntax-case stx () 5)", "(syntax-case stx (1) [x 1])",
        "(syntax-case stx (a 5) [x 1])", "(syntax-case stx () [x 1] [])", "(syntax-case stx (\"a\") [x 1])", "(syntax)", "(syntax 1 2)", "(syntax-case stx () [x . 1])", "(with-syntax)", "(with-syntax ())",
        "(with-syntax ((a)) 1)", "(with-syntax (a) 1)", "(with-syntax 5 1)"]
RBAD = ["(syntax-rules)", "(syntax-rules (5) [(_ a) 1])", "(syntax-rules () [(_ a)])", "(syntax-rules () [a 1])", "(syntax-rules () 5)", "(syntax-rules () [(_ a) 1 2])", "(syntax-rules () [() 1])", "(syntax-rules () [(\"m\" a) 1])"]


def rejected(r):
    k = r.random()
    w = r.choice(["(define-syntax (mm stx) %s)", "(define (mm stx) %s)", "(define-syntax (mm stx) (let ([q 1]) (if q %s #'1)))", "(define mm (lambda (stx) (cond [#f %s] [else 1])))"])
    if k < .25:
        p = r.choice(PBAD)
        c = r.choice(["[%s #'1]", "[(_) #'0] [%s #'1]", "[%s #'1] [_ #'2]", "[%s #t #'1]"]) % p
        t = w % ("(syntax-case stx () %s)" % c)
    elif k < .7:
        p, q = r.choice(TBAD)
        if r.random() < .6:
            t = w % ("(syntax-case stx () %s)" % r.choice(["[%s #'%s]", "[(_) #'0] [%s #'%s]", "[%s #'%s] [_ #'2]", "[%s #t #'%s]", "[%s #'((x y) %s)]", "[%s #'(x %s . y)]"]) % (p, q))
        else:
            t = "(define-syntax mm (syntax-rules () %s))" % (r.choice(["[%s %s]", "[(_) 0] [%s %s]", "[%s (x %s)]"]) % (p, q))
    elif k < .9:
        t = w % r.choice(FBAD)
    else:
        t = "(define-syntax mm %s)" % r.choice(RBAD)
    return '(import "lib/base.min")\n(display "ran")\n%s\n(display "ran")\n' % t


def main():
    ck = vp.Check("C20", RULE)
    r = ck.rng
    for regen in (False, True):
        if regen and not vp.boot_differs(ck):
            break
        what = "regenerated system" if regen else "system"
        srv = ck.library(regen=regen)
        try:
            total = ck.n(700, 14000)
            for base in range(0, total, 350):
                jobs = []
                for _ in range(min(350, total - base)):
                    c = Case(r, ck)
                    try:
                        w = c.want()
                    except Unknown:
                        ck.count("templates whose repetitions differ in length (not judged)")
                        continue
                    jobs.append((c, c.text(), w))
                for (c, t, (out, err)), x in zip(jobs, srv.run([dict(mode="import", text=t) for _, t, _ in jobs], cpu=30)):
                    ck.observe(t)
                    ck.count("programs: " + c.mode)
                    ck.count("inputs no clause matches", err)
                    for i, n, f in getattr(c, "picked", ()):
                        ck.count("inputs matched")
                        ck.count("inputs matched by a later clause", i > 0)
                        ck.count("fenders that held", bool(f))
                    for p, f, tt, g in c.cls:
                        ck.count("ellipses in patterns", write(p).count("..."))
                        ck.count("deepest variables: %d" % max(g.vars.values(), default=0))
                        ck.count("ellipses in templates", write(tt).count("..."))
                    b = None
                    if x.crashed or x.kind != "exit":
                        b = "abnormal end"
                    elif err and (x.code != 1 or b"bad syntax" not in x.err + x.out):
                        b = "no clause matches: expected a syntax error and status 1"
                    elif not err and (x.code != 0 or x.err):
                        b = "expected the program to end normally"
                    elif x.out.decode("latin1") != out:
                        b = "another instance than the template's"
                    if b:
                        ck.violate("%s (%s)" % (b, what), "%s\nprogram\n%s\nexpected %r\nobserved %s" % (b, t, out, x.brief()), t)
                if len(ck.viol) > 5:
                    break
            ps = [rejected(r) for _ in range(ck.n(150, 2500))]
            for t, x in zip(ps, srv.run([dict(mode="import", text=t) for t in ps], cpu=30)):
                ck.observe(t)
                ck.count("ill-formed definitions")
                b = None
                if x.crashed or x.kind != "exit":
                    b = "abnormal end"
                elif x.code != 1:
                    b = "expected a syntax error and status 1"
                elif x.out and not x.out.startswith(b"/"):
                    b = "something of the module ran"
                elif b"contract violation" in x.err or b"arity" in x.err:
                    b = "not a syntax error"
                if b:
                    ck.violate("rejected", "%s\nprogram\n%s\nobserved %s" % (b, t, x.brief()), t)
        finally:
            srv.close()
    ck.finish()


if __name__ == "__main__":
    vp.main(main)
