"""Type-directed generator of core programs (always terminating, mostly error free)."""
from sexp import *
from refeval import *

INT, BOOL, SYM, LIST, ANY, VEC, BOX = "int", "bool", "sym", "list", "any", "vec", "box"
NAMES = ["x", "y", "z", "a", "b", "c", "f", "g", "h", "k", "n", "acc", "t1", "loop", "list", "cons", "car", "+", "p", "q"]
PRIMS = {"+", "-", "*", "add1", "sub1", "cons", "car", "cdr", "list", "length", "reverse", "append", "map", "vector",
         "vector-ref", "vector-length", "box", "unbox", "set-box!", "vector-set!", "null?", "pair?", "not", "<", "=", ">", "<=", ">=",
         "eq?", "equal?", "for-each", "display", "void", "tr", "symbol?", "integer?"}


class Fn(tuple):
    """(argument types, rest?, return type)"""
    def __new__(cls, args, rest, ret):
        return tuple.__new__(cls, (tuple(args), rest, ret))


class MVT(tuple):
    pass


class Gen:
    def __init__(self, rng, size=40, err=False, fancy=True):
        self.r = rng
        self.budget = size
        self.tick = 0
        self.err = err
        self.feat = {}
        self.fancy = fancy

    def use(self, f):
        self.feat[f] = self.feat.get(f, 0) + 1

    def name(self):
        r = self.r
        return Sym(r.choice(NAMES[:14] if r.random() < 0.93 else NAMES))

    def names(self, n):
        out = []
        while len(out) < n:
            x = self.name()
            if x in out:
                x = Sym("v%d" % self.r.randrange(1000))
            if x not in out:
                out.append(x)
        return out

    def typ(self):
        return self.r.choices([INT, BOOL, LIST, SYM, VEC, BOX], [8, 2, 4, 1, 1, 1])[0]

    def fntype(self, ret=None):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3]) if r.random() < 0.97 else r.randrange(4, 14)
        if ret is None:
            ret = self.typ()
            if r.random() < 0.15:
                ret = MVT(self.typ() for _ in range(r.choice([0, 2, 2, 3])))
        return Fn([self.typ() if r.random() < 0.85 else Fn([INT], False, INT) for _ in range(n)], r.random() < 0.2, ret)

    def ok(self, prim, sc):
        return Sym(prim) not in sc

    def vars(self, t, sc):
        return [n for n, x in sc.items() if x == t]

    # -- literals
    def lit(self, t):
        r = self.r
        if t == INT:
            return r.choice([0, 1, 2, -1, 7, 10, r.randrange(-100, 100), r.randrange(-2 ** 63, 2 ** 63)])
        if t == BOOL:
            return r.random() < 0.5
        if t == SYM:
            return [QUOTE, Sym(r.choice(["a", "b", "if", "quote", "lambda", "foo-bar"]))]
        if t == LIST:
            return [QUOTE, [self.lit(INT) for _ in range(r.randrange(4))]]
        if t == VEC:
            return [QUOTE, Vec([self.lit(INT) for _ in range(1 + r.randrange(3))])] if r.random() < 0 else \
                [Sym("vector")] + [self.lit(INT) for _ in range(1 + r.randrange(3))]
        if t == BOX:
            return [Sym("box"), self.lit(INT)]
        if t == ANY:
            return r.choice([Str("str\n\"q\""), Char("a"), Char("\n"), [QUOTE, [Sym("p"), [1, Sym("q")]]], [QUOTE, []],
                             [QUOTE, Pair(1, 2)], [QUOTE, Vec([Sym("v"), 1])]])
        raise AssertionError(t)

    # -- expressions
    def g(self, t, d, sc):
        r = self.r
        self.budget -= 1
        if isinstance(t, MVT):
            return self.gmv(t, d, sc)
        if isinstance(t, Fn):
            return self.gfn(t, d, sc)
        vs = self.vars(t, sc)
        if d <= 0 or self.budget <= 0:
            if vs and r.random() < 0.8:
                return r.choice(vs)
            if t in (VEC, BOX) and not self.ok({"vec": "vector", "box": "box"}[t], sc):
                return vs[0] if vs else [Sym("(lambda)"), 0][0:0] or self.anyof(t, sc)
            return self.lit(t)
        if self.err and r.random() < 0.03:
            self.err = False
            return self.gerr(t, d, sc)
        if vs and r.random() < 0.18:
            return r.choice(vs)
        k = r.random()
        if k < 0.10:
            self.use("if")
            return [IF, self.g(BOOL, d - 1, sc), self.g(t, d - 1, sc), self.g(t, d - 1, sc)]
        if k < 0.18:
            self.use("begin")
            return [BEGIN] + self.effects(d, sc) + [self.g(t, d - 1, sc)]
        if k < 0.30:
            return self.glet(t, d, sc)
        if k < 0.38:
            return self.gletrec(t, d, sc)
        if k < 0.46:
            return self.gapp_lambda(t, d, sc)
        if k < 0.54 or (k < 0.7 and any(isinstance(x, Fn) and x[2] == t for x in sc.values())):
            return self.gcall(t, d, sc)
        if k < 0.62:
            return self.gcwv(t, d, sc)
        if k < 0.72:
            self.use("apply")
            return self.gapply(t, d, sc)
        if k < 0.80 and self.ok("tr", sc):
            self.tick += 1
            return [Sym("tr"), self.tick, self.g(t, d - 1, sc)]
        if k < 0.84:
            return self.gloop(t, d, sc)
        if k < 0.86:
            self.use("values1")
            return [VALUES, self.g(t, d - 1, sc)]
        return self.gprim(t, d, sc)

    def anyof(self, t, sc):
        # constructor is shadowed: rebuild through a quoted literal
        return [QUOTE, Vec([1])] if t == VEC else [EVAL, [QUOTE, [Sym("box"), 0]]]

    def gprim(self, t, d, sc):
        r = self.r
        g = self.g
        if t == INT:
            opts = [("+", lambda: [Sym("+")] + [g(INT, d - 1, sc) for _ in range(r.choice([0, 1, 2, 2, 2, 3, 5]))]),
                    ("-", lambda: [Sym("-")] + [g(INT, d - 1, sc) for _ in range(r.choice([1, 2, 2, 3]))]),
                    ("*", lambda: [Sym("*")] + [g(INT, d - 1, sc) for _ in range(2)]),
                    ("add1", lambda: [Sym("add1"), g(INT, d - 1, sc)]),
                    ("length", lambda: [Sym("length"), g(LIST, d - 1, sc)]),
                    ("vector-ref", lambda: [Sym("vector-ref"), g(VEC, d - 1, sc), 0]),
                    ("vector-length", lambda: [Sym("vector-length"), g(VEC, d - 1, sc)]),
                    ("unbox", lambda: [Sym("unbox"), g(BOX, d - 1, sc)])]
            if self.ok("cons", sc):
                opts.append(("car", lambda: [Sym("car"), [Sym("cons"), g(INT, d - 1, sc), g(LIST, d - 1, sc)]]))
        elif t == BOOL:
            opts = [("<", lambda: [Sym("<"), g(INT, d - 1, sc), g(INT, d - 1, sc)]),
                    ("=", lambda: [Sym("=")] + [g(INT, d - 1, sc) for _ in range(r.choice([1, 2, 3]))]),
                    ("null?", lambda: [Sym("null?"), g(LIST, d - 1, sc)]),
                    ("not", lambda: [Sym("not"), g(BOOL, d - 1, sc)]),
                    ("eq?", lambda: [Sym("eq?"), g(SYM, d - 1, sc), g(SYM, d - 1, sc)]),
                    ("equal?", lambda: [Sym("equal?"), g(LIST, d - 1, sc), g(LIST, d - 1, sc)]),
                    ("pair?", lambda: [Sym("pair?"), g(self.typ(), d - 1, sc)])]
        elif t == LIST:
            opts = [("list", lambda: [Sym("list")] + [g(INT, d - 1, sc) for _ in range(r.choice([0, 1, 2, 3, 9]))]),
                    ("cons", lambda: [Sym("cons"), g(INT, d - 1, sc), g(LIST, d - 1, sc)]),
                    ("append", lambda: [Sym("append"), g(LIST, d - 1, sc), g(LIST, d - 1, sc)]),
                    ("reverse", lambda: [Sym("reverse"), g(LIST, d - 1, sc)]),
                    ("map", lambda: [Sym("map"), g(Fn([INT], False, INT), d - 1, sc), g(LIST, d - 1, sc)])]
        elif t == VEC:
            opts = [("vector", lambda: [Sym("vector")] + [g(INT, d - 1, sc) for _ in range(r.randrange(1, 5))])]
        elif t == BOX:
            opts = [("box", lambda: [Sym("box"), g(INT, d - 1, sc)])]
        else:
            return self.lit(t)
        opts = [o for n, o in opts if self.ok(n, sc)]
        return r.choice(opts)() if opts else self.leaf(t, sc)

    def leaf(self, t, sc):
        vs = self.vars(t, sc)
        if vs:
            return self.r.choice(vs)
        if t in (VEC, BOX):
            return self.anyof(t, sc)
        return self.lit(t)

    def effects(self, d, sc):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 2])):
            k = r.random()
            cand = [(n, t) for n, t in sc.items() if t in (INT, BOOL, LIST, SYM, VEC, BOX) or isinstance(t, Fn)]
            if k < 0.4 and cand:
                n, t = r.choice(cand)
                self.use("set!")
                if isinstance(t, Fn):
                    # no recursion through assignment: the new value refers to nothing callable
                    nsc = {m: u for m, u in sc.items() if not isinstance(u, Fn)}
                    for m in sc:
                        if m not in nsc:
                            nsc[m] = "hidden"
                    out.append([SET, n, self.gfn(t, min(d - 1, 2), nsc)])
                else:
                    out.append([SET, n, self.g(t, d - 1, sc)])
            elif k < 0.5 and self.ok("set-box!", sc):
                out.append([Sym("set-box!"), self.g(BOX, d - 1, sc), self.g(INT, d - 1, sc)])
            elif k < 0.6 and self.ok("vector-set!", sc):
                out.append([Sym("vector-set!"), self.g(VEC, d - 1, sc), 0, self.g(INT, d - 1, sc)])
            elif k < 0.7 and self.ok("display", sc):
                out.append([Sym("display"), self.g(self.typ(), d - 1, sc)])
            elif k < 0.8:
                out.append(self.g(MVT(self.typ() for _ in range(r.choice([0, 2, 3]))), d - 1, sc))
            elif k < 0.86:
                out.append([BEGIN])
            else:
                out.append(self.g(self.typ(), d - 1, sc))
        return out

    def bindings(self, d, sc, n):
        r = self.r
        clauses = []
        bound = {}
        for _ in range(n):
            k = r.choices([0, 1, 2, 3], [1, 12, 3, 1])[0]
            ids = []
            for i in self.names(k):
                while i in bound:
                    i = Sym("w%d" % r.randrange(10000))
                ids.append(i)
            ts = [self.typ() if r.random() < 0.8 else self.fntype(self.typ()) for _ in ids]
            e = self.g(ts[0] if k == 1 else MVT(ts), d - 1, sc)
            clauses.append([ids, e])
            bound.update(zip(ids, ts))
        return clauses, bound

    def glet(self, t, d, sc):
        self.use("let-values")
        cl, b = self.bindings(d, sc, self.r.choice([0, 1, 1, 2, 2, 3]))
        nsc = ext(sc, b)
        return [LETV, cl] + self.effects(d, nsc) + [self.g(t, d - 1, nsc)]

    def gletrec(self, t, d, sc):
        """sequential values, then procedures that may call the earlier ones"""
        self.use("letrec-values")
        r = self.r
        b = {}
        cl = []
        for _ in range(r.choice([0, 1, 2, 2, 3])):
            ids = [i for i in self.names(r.choice([1, 1, 1, 2, 0])) if i not in b]
            nsc = ext(sc, b)
            for i in ids:
                nsc[i] = "hidden"
            ts = [self.typ() if r.random() < 0.5 else self.fntype(self.typ()) for _ in ids]
            cl.append([ids, self.g(ts[0] if len(ids) == 1 else MVT(ts), d - 1, nsc)])
            b.update(zip(ids, ts))
            sc = dict(sc)
        # names bound by a later clause shadow the outer ones in the earlier clauses: rename clashes
        later = set()
        for ids, e in reversed(cl):
            if later & free_syms(e):
                return self.g(t, d - 1, sc) if d > 0 else self.leaf(t, sc)
            later |= set(ids)
        nsc = ext(sc, b)
        return [LETREC, cl] + self.effects(d, nsc) + [self.g(t, d - 1, nsc)]

    def params(self, ft):
        args, rest, ret = ft
        ns = self.names(len(args) + (1 if rest else 0))
        b = dict(zip(ns, args))
        if rest:
            b[ns[-1]] = LIST
            if len(args) == 0:
                return ns[-1], b
            f = ns[-1]
            for x in reversed(ns[:-1]):
                f = Pair(x, f)
            return f, b
        return ns, b

    def glam(self, ft, d, sc):
        f, b = self.params(ft)
        nsc = ext(sc, b)
        body = self.effects(d, nsc) if self.r.random() < 0.5 else []
        return [f] + body + [self.g(ft[2], d - 1, nsc)]

    def gfn(self, ft, d, sc):
        r = self.r
        vs = self.vars(ft, sc)
        if vs and r.random() < 0.4:
            return r.choice(vs)
        k = r.random()
        if d > 0 and k < 0.1:
            return [IF, self.g(BOOL, d - 1, sc), self.gfn(ft, d - 1, sc), self.gfn(ft, d - 1, sc)]
        if d > 0 and k < 0.2:
            return self.glet(ft, d, sc)
        if k < 0.4:
            self.use("case-lambda")
            args, rest, ret = ft
            cls = [self.glam(ft, d - 1, sc)]
            for _ in range(r.choice([0, 1, 2])):
                m = r.randrange(0, 5)
                if r.random() < 0.8:
                    if m == len(args) or (rest and m > len(args)):
                        pos = len(cls)      # never ahead of the clause that must be chosen
                        # could still be chosen for other calls of the same type: only after
                    else:
                        pos = r.randrange(len(cls) + 1)
                    cls.insert(pos, self.glam(Fn([INT] * m, False, self.typ()), d - 1, sc))
                elif m > len(args) and not rest:
                    cls.insert(r.randrange(len(cls) + 1), self.glam(Fn([INT] * m, True, self.typ()), d - 1, sc))
            return [CASE] + cls
        self.use("lambda")
        return [LAM] + self.glam(ft, d, sc)

    def gargs(self, ft, d, sc):
        out = [self.g(a, d - 1, sc) for a in ft[0]]
        if ft[1]:
            n = self.r.choice([0, 1, 2, 4])
            if self.r.random() < 0.02:
                n = 60
            out += [self.g(INT, d - 2, sc) for _ in range(n)]
        return out

    def gapp_lambda(self, t, d, sc):
        self.use("lambda-app")
        ft = self.fntype(t)
        return [[LAM] + self.glam(ft, d - 1, sc)] + self.gargs(ft, d, sc)

    def gcall(self, t, d, sc):
        r = self.r
        fs = [(n, x) for n, x in sc.items() if isinstance(x, Fn) and x[2] == t]
        if not fs:
            return self.gprim(t, d, sc) if t in (INT, BOOL, LIST, VEC, BOX) else self.leaf(t, sc)
        self.use("call")
        n, ft = r.choice(fs)
        return [n] + self.gargs(ft, d, sc)

    def gapply(self, t, d, sc):
        r = self.r
        if not (self.ok("list", sc)):
            return self.leaf(t, sc)
        n = r.randrange(0, 5)
        ft = Fn([INT] * n, r.random() < 0.3, t)
        f = self.gfn(ft, d - 1, sc)
        vals = [self.g(INT, d - 2, sc) for _ in range(n)]
        if ft[1]:
            vals += [self.g(INT, d - 2, sc) for _ in range(r.randrange(3))]
        k = r.randrange(len(vals) + 1)
        return [APPLY, f] + vals[:k] + [[Sym("list")] + vals[k:]]

    def gmv(self, ts, d, sc):
        """an expression producing the values ts (never exactly one)"""
        r = self.r
        if len(ts) == 1:
            return self.g(ts[0], d, sc)
        self.use("mv%d" % len(ts))
        fs = [(n, x) for n, x in sc.items() if isinstance(x, Fn) and x[2] == ts]
        if d > 0 and fs and r.random() < 0.4:
            n, ft = r.choice(fs)
            return [n] + self.gargs(ft, d, sc)
        k = r.random()
        if d > 0 and k < 0.12:
            return [IF, self.g(BOOL, d - 1, sc), self.gmv(ts, d - 1, sc), self.gmv(ts, d - 1, sc)]
        if d > 0 and k < 0.22:
            return [BEGIN] + self.effects(d - 1, sc) + [self.gmv(ts, d - 1, sc)]
        if d > 0 and k < 0.32:
            return self.glet(ts, d - 1, sc)
        if d > 0 and k < 0.42:
            ft = self.fntype(ts)
            return [[LAM] + self.glam(ft, d - 1, sc)] + self.gargs(ft, d, sc)
        if d > 0 and k < 0.48:
            return self.gcwv(ts, d - 1, sc)
        if d > 0 and k < 0.54 and all(x == INT for x in ts) and self.ok("list", sc):
            return [APPLY, VALUES, [Sym("list")] + [self.g(INT, d - 1, sc) for _ in ts]]
        return [VALUES] + [self.g(x, d - 1, sc) for x in ts]

    def gcwv(self, t, d, sc):
        self.use("call-with-values")
        r = self.r
        n = r.choice([0, 1, 2, 2, 3])
        ts = [self.typ() for _ in range(n)]
        rest = r.random() < 0.2
        extra = [INT] * (r.randrange(3) if rest else 0)
        prod = MVT(ts + extra) if n + len(extra) != 1 else (ts + extra)[0]
        k = r.random()
        p = [LAM, []] + (self.effects(d - 1, sc) if r.random() < 0.3 else []) + [self.g(prod, d - 1, sc)]
        if k < 0.25:
            p = self.gfn(Fn([], False, prod), d - 1, sc)
        return [CWV, p, self.gfn(Fn(ts, rest, t), d - 1, sc)]

    def gloop(self, t, d, sc):
        """a bounded loop: letrec with one self call, in tail position or not"""
        r = self.r
        self.use("loop")
        need = ["<=", "-"]
        if not all(self.ok(p, sc) for p in need):
            return self.leaf(t, sc)
        lp, i, acc = self.names(3)
        if set((lp, i, acc)) & {Sym("<="), Sym("-"), Sym("+"), Sym("list"), Sym("cons"), Sym("car")}:
            return self.leaf(t, sc)
        b = ext(sc, {lp: "hidden", i: INT, acc: t})
        step = [lp, [Sym("-"), i, 1], self.g(t, d - 1, b)]
        if t == INT and r.random() < 0.4 and self.ok("+", sc):
            step = [Sym("+"), self.g(INT, d - 2, b), step]
        elif t == LIST and r.random() < 0.4 and self.ok("cons", sc):
            step = [Sym("cons"), i, step]
        body = [IF, [Sym("<="), i, 0], acc, step]
        if r.random() < 0.3:
            body = [BEGIN] + self.effects(d - 2, b) + [body]
            # an effect may assign the counter upwards: keep it out of reach
            if assigns(body, i):
                body = [IF, [Sym("<="), i, 0], acc, step]
        if assigns(step, i):
            return self.leaf(t, sc)
        return [LETREC, [[[lp], [LAM, [i, acc], body]]], [lp, r.randrange(0, 6), self.g(t, d - 1, ext(sc, {lp: "hidden"}))]]

    def gerr(self, t, d, sc):
        r = self.r
        self.use("error")
        k = r.randrange(10)
        if k == 0:
            return Sym("no-such-variable")
        if k == 1:
            return [self.g(INT, d - 1, sc), self.g(INT, d - 1, sc)]
        if k == 2:
            ft = self.fntype(t)
            f = self.gfn(Fn(ft[0], False, ft[2]), d - 1, sc)
            if isinstance(f, list) and f and f[0] == LAM:
                return [f] + [self.g(INT, d - 1, sc) for _ in range(len(ft[0]) + r.choice([1, 2]))]
            return Sym("nope")
        if k == 3:
            return [LETV, [[self.names(r.choice([0, 2, 3])), self.g(INT, d - 1, sc)]], self.g(t, d - 1, sc)]
        if k == 4:
            return [LETV, [[self.names(1), self.g(MVT([INT] * r.choice([0, 2, 3])), d - 1, sc)]], self.g(t, d - 1, sc)]
        if k == 5 and self.ok("car", sc):
            return [Sym("car"), self.g(INT, d - 1, sc)]
        if k == 6 and self.ok("vector-ref", sc) and self.ok("vector", sc):
            return [Sym("vector-ref"), [Sym("vector"), 1], self.r.choice([1, 2, -1, True])]
        if k == 7:
            return [Sym("error"), [QUOTE, Sym("someone")], Str("went wrong"), self.g(INT, d - 1, sc)]
        if k == 8:
            return Sym("undefined-%d" % r.randrange(9))
        if k == 9:
            x, y = Sym("r1"), Sym("r2")
            return [LETREC, [[[x], y], [[y], 1]], self.g(t, d - 1, sc)]
        return [CWV, [LAM, [], self.g(MVT([INT, INT]), d - 1, sc)], [LAM, [Sym("x")], self.g(t, d - 1, sc)]]

    def program(self):
        r = self.r
        forms = [[DEF, [Sym("tr")], [LAM, [Sym("n"), Sym("v")],
                                      [Sym("display"), Sym("n")], [Sym("display"), Str(" ")], Sym("v")]]]
        sc = {}
        total = self.budget
        n = r.choice([2, 3, 4, 6])
        for i in range(n):
            self.budget = total // n
            d = r.choice([2, 3, 4, 5])
            k = r.random()
            if k < 0.45 and i < n - 1:
                ids = [Sym("G%d" % r.randrange(6)) for _ in range(1 if r.random() < 0.8 else r.choice([0, 2, 3]))]
                if len(set(ids)) < len(ids):
                    continue
                ts = [self.typ() if r.random() < 0.4 else self.fntype() for _ in ids]
                # a definition hides the old one while its value is computed (no recursion)
                hsc = {m: u for m, u in sc.items()}
                for x in ids:
                    hsc[x] = "hidden"
                e = self.g(ts[0] if len(ids) == 1 else MVT(ts), d, hsc)
                # a redefinition changes what earlier procedures call: drop those that mention it
                forms.append([DEF, ids, e])
                for x in ids:
                    if x in sc and sc[x] != "hidden":
                        for m in list(sc):
                            if isinstance(sc[m], Fn) or sc[m] != sc.get(x):
                                sc[m] = "hidden" if isinstance(sc[m], Fn) else sc[m]
                sc.update(zip(ids, ts))
            elif k < 0.5 and not any(isinstance(t, Fn) for t in sc.values()):
                self.use("eval")
                forms.append([EVAL, [QUOTE, self.g(self.typ(), d, sc)]])
            elif k < 0.58:
                forms.append(self.g(MVT(self.typ() for _ in range(r.choice([0, 2, 3]))), d, sc))
            elif k < 0.64:
                forms.append(self.g(self.fntype(), d, sc))
            else:
                forms.append(self.g(self.typ() if r.random() < 0.9 else ANY, d, sc))
            if self.err and r.random() < 0.03:
                # (in a closure over an undefined variable, set! is not judged)
                self.err = False
                forms.append([SET, Sym("undefined-%d" % r.randrange(9)), self.g(INT, 1, sc)])
        return forms


def ext(sc, b):
    n = dict(sc)
    n.update(b)
    return n


def free_syms(e):
    """all symbols that occur in e"""
    out = set()
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, Sym):
            out.add(x)
        elif isinstance(x, (list, tuple)):
            st.extend(x)
        elif isinstance(x, Pair):
            st += [x.a, x.d]
    return out


def assigns(e, n):
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, list):
            if len(x) == 3 and x[0] == SET and x[1] == n:
                return True
            st.extend(x)
    return False


def idiom_program(g):
    """closures that share and mutate captured variables, called in varied orders"""
    r = g.r
    g.use("idiom")
    I = lambda: r.choice([0, 1, 2, 3, -1, 5, 10])
    forms = [[DEF, [Sym("tr")], [LAM, [Sym("n"), Sym("v")],
                                  [Sym("display"), Sym("n")], [Sym("display"), Str(" ")], Sym("v")]]]
    L = Sym("list")
    for _ in range(r.choice([1, 2, 3])):
        k = r.randrange(9)
        if k == 0:      # counters
            n, st = [Sym(x) for x in r.sample(["n", "x", "m", "st", "k"], 2)]
            body = r.choice([[LAM, [], [SET, n, [Sym("+"), n, st]], n],
                             [LAM, [], [LETV, [[[st], n]], [SET, n, [Sym("+"), st, 1]], [Sym("*"), st, n]]],
                             [CASE, [[], n], [[st], [SET, n, [Sym("-"), n, st]], n]],
                             [LAM, Sym("r"), [SET, n, [Sym("+"), n, [Sym("length"), Sym("r")], st]], n]])
            mk = [LAM, [n, st]] + ([[SET, st, [Sym("add1"), st]]] if r.random() < 0.3 else []) + [body]
            cs = [Sym(x) for x in ("c1", "c2", "c3")]
            calls = []
            for _ in range(r.randrange(3, 10)):
                c = [r.choice(cs)]
                if body[0] == CASE and r.random() < 0.5 or body[1:2] == [Sym("r")]:
                    c += [I() for _ in range(1 if body[0] == CASE else r.randrange(4))]
                calls.append(c)
            clauses = [[[c], [Sym("mk"), I(), I()]] for c in cs]
            if r.random() < 0.4:
                clauses[1][1] = r.choice([clauses[0][1], [Sym("mk"), I(), 0]])
            forms.append([LETV, [[[Sym("mk")], mk]], [LETV, clauses, [L] + calls]])
        elif k == 1:    # getter and setter pairs through multiple values
            v = Sym(r.choice(["v", "x", "s"]))
            e = [LETV, [[[v], I()]], [VALUES, [LAM, [], v], [LAM, [Sym("w")], [SET, v, [Sym("+"), v, Sym("w")]]],
                                      [LAM, [], [SET, v, [Sym("*"), v, 2]], v]]]
            ops = [r.choice([[Sym("get")], [Sym("put"), I()], [Sym("dbl")]]) for _ in range(6)]
            if r.random() < 0.5:
                e = [LETREC, [[[v], I()], [[Sym("g1"), Sym("p1"), Sym("d1")],
                                           [VALUES, [LAM, [], v], [LAM, [Sym("w")], [SET, v, [Sym("+"), v, Sym("w")]]],
                                            [LAM, [], [SET, v, [Sym("*"), [Sym("g1")], 2]], [Sym("g1")]]]]],
                     [VALUES, Sym("g1"), Sym("p1"), Sym("d1")]]
            if r.random() < 0.5:
                forms.append([DEF, [Sym("get"), Sym("put"), Sym("dbl")], e])
                forms.append([L] + ops)
            else:
                forms.append([LETV, [[[Sym("get"), Sym("put"), Sym("dbl")], e]], [L] + ops])
        elif k == 2:    # mutual recursion, in letrec or at top level
            n = r.randrange(0, 30)
            ev = [LAM, [Sym("n")], [IF, [Sym("="), Sym("n"), 0], True, [Sym("od?"), [Sym("-"), Sym("n"), 1]]]]
            od = [LAM, [Sym("n")], [IF, [Sym("="), Sym("n"), 0], False, [Sym("ev?"), [Sym("-"), Sym("n"), 1]]]]
            if r.random() < 0.3:
                ev = [CASE, [[], [QUOTE, Sym("none")]], ev[1:], [Pair(Sym("n"), Sym("more")), [L, Sym("n"), Sym("more")]]]
            if r.random() < 0.5:
                forms.append([LETREC, [[[Sym("ev?")], ev], [[Sym("od?")], od]], [L, [Sym("ev?"), n], [Sym("od?"), n]]])
            else:
                forms += [[DEF, [Sym("ev?")], ev], [DEF, [Sym("od?")], od], [L, [Sym("ev?"), n], [Sym("od?"), n]]]
        elif k == 3:    # non-tail recursion with pending values of several kinds
            f, n = Sym("rec"), Sym("n")
            rec = [f, [Sym("-"), n, 1]]
            base, step = r.choice([
                (0, [Sym("+"), n, rec]), ([QUOTE, []], [Sym("cons"), n, rec]), (1, [Sym("*"), rec, n]),
                ([L, 0], [LETV, [[[Sym("h")], [Sym("*"), n, n]], [[Sym("t")], rec]], [Sym("cons"), Sym("h"), Sym("t")]]),
                (0, [CWV, [LAM, [], [VALUES, n, rec]], [LAM, [Sym("a"), Sym("b")], [Sym("-"), Sym("a"), Sym("b")]]]),
                (0, [Sym("+"), n, [IF, [Sym("="), n, 3], [f, 1], rec], rec]),
                (1, [APPLY, Sym("+"), n, [L, rec, n]]),
                (0, [Sym("unbox"), [LETV, [[[Sym("b")], [Sym("box"), n]]], [Sym("set-box!"), Sym("b"), [Sym("+"), rec, [Sym("unbox"), Sym("b")]]], Sym("b")]]),
            ])
            d = r.randrange(1, 7)
            forms.append([LETREC, [[[f], [LAM, [n], [IF, [Sym("<="), n, 0], base, step]]]], [f, d]])
        elif k == 4:    # closures collected by a loop: each captures its own binding
            forms.append([LETREC, [[[Sym("lp")], [LAM, [Sym("i"), Sym("fs")], [IF, [Sym("="), Sym("i"), 0], Sym("fs"),
                          [LETV, [[[Sym("j")], [Sym("*"), Sym("i"), I()]]],
                           [Sym("lp"), [Sym("-"), Sym("i"), 1],
                            [Sym("cons"), [LAM, [Sym("d")], [SET, Sym("j"), [Sym("+"), Sym("j"), Sym("i"), Sym("d")]], Sym("j")], Sym("fs")]]]]]]],
                          [LETV, [[[Sym("fs")], [Sym("lp"), r.randrange(1, 6), [QUOTE, []]]]],
                           [L, [Sym("map"), [LAM, [Sym("f")], [Sym("f"), I()]], Sym("fs")],
                            [Sym("map"), [LAM, [Sym("f")], [Sym("f"), 0]], [Sym("reverse"), Sym("fs")]]]]])
        elif k == 5:    # deep capture: every level keeps its own variables
            depth = r.randrange(2, 7)
            vs = [Sym(r.choice("xyzab")) for _ in range(depth)]
            body = [L] + list(dict.fromkeys(vs))
            if r.random() < 0.6:
                body = [BEGIN, [SET, r.choice(vs), [Sym("+"), r.choice(vs), 100]], body]
            e = body
            for v in reversed(vs):
                e = [LAM, [v]] + ([[SET, v, [Sym("+"), v, 1]]] if r.random() < 0.3 else []) + [e]
            call = e
            for v in vs:
                call = [call, I()]
            forms.append(call)
            nm = Sym("deep")
            forms.append([DEF, [nm], e])
            call = nm
            for v in vs:
                call = [call, [Sym("tr"), I(), I()]]
            forms.append([L, call, call])
        elif k == 6:    # many arguments, many values, rest arguments
            n = r.choice([5, 17, 33, 64, 130])
            ps = [Sym("p%d" % i) for i in range(n)]
            args = [I() for _ in range(n)]
            pick = [r.choice(ps) for _ in range(5)]
            forms.append([[LAM, ps, [L] + pick]] + args)
            forms.append([CWV, [LAM, [], [VALUES] + args], [LAM, Sym("r"), [Sym("length"), Sym("r")]]])
            forms.append([LETV, [[ps, [VALUES] + args]], [SET, pick[0], 99], [L] + pick])
            forms.append([DEF, [Sym("many")], [LAM, lst(ps[:r.randrange(1, 5)], Sym("rest")), [Sym("cons"), Sym("p0"), Sym("rest")]]])
            forms.append([Sym("many")] + args)
            forms.append([APPLY, Sym("many"), I(), [APPLY, L, args[0], [L] + args[1:]]])
        elif k == 7:    # case-lambda dispatch
            cl = []
            used = []
            for _ in range(r.randrange(1, 5)):
                m = r.randrange(0, 5)
                ps = [Sym("q%d" % i) for i in range(m)]
                if r.random() < 0.3:
                    cl.append([lst(ps, Sym("rs")) if ps else Sym("rs"), [L, [QUOTE, Sym("c%d" % len(cl))]] + ps + [Sym("rs")]])
                else:
                    cl.append([ps, [L, [QUOTE, Sym("c%d" % len(cl))]] + ps])
            forms.append([DEF, [Sym("cl")], [CASE] + cl])
            for m in r.sample(range(7), 3):
                ok = any((isinstance(c[0], list) and len(c[0]) == m) or (not isinstance(c[0], list) and m >= len(formals(c[0])[0])) for c in cl)
                if ok or (g.err and r.random() < 0.2):
                    forms.append([Sym("cl")] + [I() for _ in range(m)])
        else:           # continuation-passing: values flow through several consumers
            a, b = Sym("a"), Sym("b")
            e = [VALUES, I(), I()]
            for _ in range(r.randrange(1, 5)):
                e = r.choice([
                    [CWV, [LAM, [], e], [LAM, [a, b], [VALUES, b, [Sym("+"), a, I()]]]],
                    [LETV, [[[a, b], e]], [VALUES, [Sym("-"), a, b], a]],
                    [CWV, [LAM, [], e], VALUES],
                    [IF, [Sym("<"), I(), I()], e, [VALUES, I(), I()]],
                    [BEGIN, [VALUES, I(), I(), I()], e],
                    [LETV, [[[a], I()], [[b, Sym("c")], e]], [VALUES, Sym("c"), [Sym("+"), a, b]]],
                    [LETREC, [[[a, b], e]], [SET, a, [Sym("+"), a, b]], [VALUES, a, b]],
                    [[LAM, [Sym("f")], [CWV, Sym("f"), [CASE, [[a], a], [[a, b], [VALUES, b, a]]]]], [LAM, [], e]],
                ])
            forms.append([CWV, [LAM, [], e], r.choice([L, Sym("cons"), Sym("-"), [LAM, [a, b], [L, [Sym("tr"), 1, b], [Sym("tr"), 2, a]]]])])
    g.budget = 60
    if r.random() < 0.5:
        forms.append(g.g(g.typ(), 4, {}))
    return forms


class Scope:
    """small expressions over very few names: nearly every binding shadows, is captured or is assigned"""

    def __init__(self, r, size=28):
        self.r = r
        self.size = size
        self.k = 0

    IV = [Sym("x"), Sym("y"), Sym("z")]
    FV = [Sym("f"), Sym("g")]

    def ivs(self, sc):
        return [v for v in self.IV if sc.get(v) == 0]

    def tr(self, e):
        self.k += 1
        return [Sym("tr"), self.k, e] if self.r.random() < .12 else e

    def e(self, sc, d):
        """an expression whose value is an integer"""
        r = self.r
        self.size -= 1
        vs = self.ivs(sc)
        if d <= 0 or self.size <= 0:
            return r.choice(vs) if vs and r.random() < .85 else r.choice([0, 1, 2, 5, -3])
        k = r.random()
        if vs and k < .1:
            return r.choice(vs)
        if k < .22:
            return [Sym(r.choice(["+", "-", "+", "-", "*"]))] + [self.tr(self.e(sc, d - 1)) for _ in range(r.choice([1, 2, 2, 3]))]
        if k < .48:
            cl, b = self.binds(sc, d)
            s2 = ext(sc, b)
            return [LETV, cl] + self.eff(s2, d) + [self.e(s2, d - 1)]
        if k < .56:
            # letrec: the right sides are procedures, or values that use none of the new names
            names = r.sample(self.IV + self.FV, r.choice([1, 2, 2, 3]))
            out = ext(sc, {n: None for n in names})
            cl = []
            for n in names:
                if n in self.FV:
                    cl.append([[n], self.lam(out, d - 1)])
                else:
                    cl.append([[n], self.e({a: t for a, t in out.items() if a not in names}, d - 1)])
                out = ext(out, {n: 1 if n in self.FV else 0})
            return [LETREC, cl] + self.eff(out, d) + [self.e(out, d - 1)]
        if k < .64:
            ns, b = self.params(r.choice([0, 1, 2, 3]))
            s2 = ext(sc, b)
            return [[LAM, ns] + self.eff(s2, d) + [self.e(s2, d - 1)]] + [self.arg(sc, n, d) for n in (ns if isinstance(ns, list) else [])]
        if k < .74:
            f = self.fn(sc, d - 1)
            return [f, self.tr(self.e(sc, d - 1))]
        if k < .8:
            return [IF, [Sym("<"), self.e(sc, d - 1), self.e(sc, d - 2)], self.e(sc, d - 1), self.e(sc, d - 1)]
        if k < .86:
            return [BEGIN] + self.eff(sc, d, 1) + [self.e(sc, d - 1)]
        if k < .9:
            n = r.choice([0, 1, 2, 2, 3])
            ns, b = self.params(n)
            ns = [x for x in ns if x in self.IV]
            s2 = ext(sc, {x: 0 for x in ns})
            return [CWV, [LAM, [], self.mv(sc, len(ns), d - 1)], r.choice([[LAM, ns, self.e(s2, d - 1)], [CASE, [ns, self.e(s2, d - 1)]]])]
        if k < .94:
            x = r.choice(self.IV)
            return [APPLY, [LAM, Pair(x, Sym("q")), self.e(ext(sc, {x: 0}), d - 1)], [Sym("list"), self.e(sc, d - 1)] + [self.e(sc, d - 2) for _ in range(r.randrange(2))]]
        # a curried closure, called from outside its scope
        m = r.choice([2, 2, 3])
        vs = [r.choice(self.IV) for _ in range(m)]
        s2 = ext(sc, {v: 0 for v in vs})
        body = self.e(s2, d - 1)
        for i in range(m - 1, -1, -1):
            body = [LAM, [vs[i]]] + self.eff(ext(sc, {v: 0 for v in vs[:i + 1]}), d - 2) + [body]
        for v in vs:
            body = [body, self.e(sc, d - 2)]
        return body

    def mv(self, sc, n, d):
        r = self.r
        if n == 1:
            return self.e(sc, d)
        if d > 0 and r.random() < .3:
            cl, b = self.binds(sc, d)
            return [LETV, cl, self.mv(ext(sc, b), n, d - 1)]
        if d > 0 and r.random() < .2:
            return [IF, [Sym("<"), self.e(sc, d - 1), self.e(sc, d - 2)], self.mv(sc, n, d - 1), self.mv(sc, n, d - 1)]
        if d > 0 and r.random() < .2:
            return [BEGIN] + self.eff(sc, d, 1) + [self.mv(sc, n, d - 1)]
        if d > 0 and r.random() < .2:
            x = r.choice(self.IV)
            return [[LAM, [x], self.mv(ext(sc, {x: 0}), n, d - 1)], self.e(sc, d - 1)]
        return [VALUES] + [self.e(sc, d - 1) for _ in range(n)]

    def arg(self, sc, n, d):
        return self.fn(sc, d - 1) if n in self.FV else self.tr(self.e(sc, d - 1))

    def params(self, n):
        ns = self.r.sample(self.IV + self.FV[:1] if n < 4 else self.IV, n)
        return ns, {x: 1 if x in self.FV else 0 for x in ns}

    def binds(self, sc, d):
        r = self.r
        left = self.IV + self.FV
        left = r.sample(left, len(left))
        cl, b = [], {}
        for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
            k = r.choice([1, 1, 1, 1, 2, 0])
            ns = [left.pop() for _ in range(min(k, len(left)))]
            if len(ns) == 1 and ns[0] in self.FV:
                cl.append([ns, self.fn(sc, d - 1)])
                b[ns[0]] = 1
            else:
                ns = [n for n in ns if n in self.IV]
                cl.append([ns, self.mv(sc, len(ns), d - 1)])
                b.update({n: 0 for n in ns})
        return cl, b

    def eff(self, sc, d, least=0):
        r = self.r
        out = []
        for _ in range(max(least, r.choice([0, 0, 0, 1, 2]))):
            vs = self.ivs(sc)
            if vs and r.random() < .7:
                out.append([SET, r.choice(vs), self.e(sc, d - 1)])
            else:
                out.append(self.tr(self.e(sc, d - 2)))
        return out

    def lam(self, sc, d):
        x = self.r.choice(self.IV)
        s2 = ext(sc, {x: 0})
        body = self.eff(s2, d) + [self.e(s2, d)]
        if self.r.random() < .25:
            y = self.r.choice(self.IV)
            s3 = ext(sc, {y: 0})
            other = [[], self.e(sc, d - 1)] if self.r.random() < .5 else [lst([y, Sym("u"), Sym("w")], Sym("q")), self.e(s3, d - 1)]
            return [CASE] + self.r.sample([[[x]] + body, other], 2)
        return [LAM, [x]] + body

    def fn(self, sc, d):
        fs = [v for v in self.FV if sc.get(v) == 1]
        if fs and self.r.random() < .45:
            return self.r.choice(fs)
        if d > 0 and self.r.random() < .3:
            # a procedure that comes out of a scope of its own
            cl, b = self.binds(sc, d)
            s2 = ext(sc, b)
            return [LETV, cl] + self.eff(s2, d - 1) + [self.fn(s2, d - 1)]
        return self.lam(sc, d)


def scope_program(r):
    forms = [[DEF, [Sym("tr")], [LAM, [Sym("n"), Sym("v")], [Sym("display"), Sym("n")], [Sym("display"), Str(" ")], Sym("v")]]]
    for _ in range(r.choice([6, 10, 14])):
        s = Scope(r, r.choice([8, 12, 20, 30, 50]))
        if r.random() < .25:
            x = r.choice(Scope.IV)
            forms.append([DEF, [Sym("top")], [LAM, [x], [LAM, [r.choice(Scope.IV)], s.e({x: 0}, 4)]]])
            forms.append([[Sym("top"), 3], 4])
        else:
            forms.append(s.e({}, r.choice([3, 4, 5, 6])))
    return forms
