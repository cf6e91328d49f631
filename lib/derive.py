"""The library's derived forms: their definitions as translations to the core language, and a generator of
programs that nest them.  Forms are Python lists, identifiers Sym."""
from sexp import *
from refeval import *
from libm import LibInterp
import rdr

S = Sym
_n = [0]


def fresh(p):
    _n[0] += 1
    return S("%s%%%d" % (p, _n[0]))


def body(es):
    """a body with internal definitions, in the order written, as one expression"""
    es = [x for e in es for x in splice(e)]
    k = next((i for i, e in enumerate(es) if isdef(e)), None)
    if k is None:
        return [LETV, []] + [core(e) for e in es]
    pre, rest = es[:k], es[k:]
    binds = []
    for e in rest[:-1]:
        if isdef(e):
            ids, v = defparts(e)
            binds.append([ids, core(v)])
        else:
            binds.append([[], [LETV, [], core(e), [S("values")]]])
    return [LETV, []] + [core(e) for e in pre] + [[LETREC, binds, core(rest[-1])]]


def splice(e):
    if isinstance(e, list) and e and e[0] == BEGIN and len(e) > 1:
        return [x for y in e[1:] for x in splice(y)]
    return [e]


def isdef(e):
    return isinstance(e, list) and e and e[0] in (S("define"), DEF)


def defparts(e):
    if e[0] == DEF:
        return e[1], e[2]
    if isinstance(e[1], Sym):
        return [e[1]], e[2]
    head, rest, es = e[1][0], e[1][1:], e[2:]
    if isinstance(head, list):
        return defparts([S("define"), head, [LAM, rest] + es])
    return [head], [LAM, rest] + es


def core(e):
    if not isinstance(e, list):
        return e
    if not e:
        return e
    h, a = e[0], e[1:]
    if not isinstance(h, Sym):
        return [core(x) for x in e]
    if h == QUOTE:
        return e
    if h == LAM:
        return [LAM, a[0], body(a[1:])]
    if h == CASE:
        return [CASE] + [[c[0], body(c[1:])] for c in a]
    if h in (LETV, LETREC):
        return [h, [[b[0], core(b[1])] for b in a[0]], body(a[1:])]
    if h == S("and"):
        if not a:
            return True
        return core(a[0]) if len(a) == 1 else [IF, core(a[0]), core([h] + a[1:]), False]
    if h == S("or"):
        if not a:
            return False
        if len(a) == 1:
            return core(a[0])
        t = fresh("t")
        return [LETV, [[[t], core(a[0])]], [IF, t, t, core([h] + a[1:])]]
    if h == S("cond"):
        if not a:
            return [S("void")]
        c = a[0]
        th = core(c[1]) if len(c) == 2 else body(c[1:])
        if c[0] == S("else"):
            return th
        return [IF, core(c[0]), th, core([h] + a[1:])]
    if h == S("case"):
        if len(a) == 1:
            return [BEGIN, core(a[0]), [S("void")]]
        t = fresh("t")
        r = [S("void")]
        for c in reversed(a[1:]):
            if c[0] == S("else"):
                r = body(c[1:])
            else:
                r = [IF, [S("or*")] + [[S("equal?"), t, [QUOTE, k]] for k in c[0]], body(c[1:]), r]
                r[1] = core([S("or")] + r[1][1:])
        return [LETV, [[[t], core(a[0])]], r]
    if h == S("when"):
        return [IF, core(a[0]), body(a[1:]), [S("void")]]
    if h == S("unless"):
        return [IF, core(a[0]), [S("void")], body(a[1:])]
    if h == S("let"):
        if isinstance(a[0], Sym):
            return [LETREC, [[[a[0]], [LAM, [b[0] for b in a[1]], body(a[2:])]]], [a[0]] + [core(b[1]) for b in a[1]]]
        return [LETV, [[[b[0]], core(b[1])] for b in a[0]], body(a[1:])]
    if h == S("let*"):
        if len(a[0]) <= 1:
            return core([S("let")] + a)
        return [LETV, [[[a[0][0][0]], core(a[0][0][1])]], core([h, a[0][1:]] + a[1:])]
    if h == S("letrec"):
        return [LETREC, [[[b[0]], core(b[1])] for b in a[0]], body(a[1:])]
    if h == S("do"):
        lp = fresh("loop")
        return [LETREC, [[[lp], [LAM, [b[0] for b in a[0]],
                                 [IF, core(a[1][0]), [BEGIN] + [core(x) for x in a[1][1:]],
                                  [BEGIN] + [core(x) for x in a[2:]] + [[lp] + [core(b[2]) for b in a[0]]]]]]],
                [lp] + [core(b[1]) for b in a[0]]]
    if h == S("delay"):
        return [S("make-promise"), [LAM, [], body(a)]]
    if h == S("define"):
        ids, v = defparts(e)
        return [DEF, ids, core(v)]
    return [core(x) if i or not isinstance(x, Sym) else x for i, x in enumerate(e)]


PROMISES = """
(define-values (%tag) (list 'promise))
(define-values (make-promise) (lambda (f) (vector %tag f #f #f)))
(define-values (promise-forced?) (lambda (p) (vector-ref p 3)))
(define-values (force) (lambda (p)
  (if (vector-ref p 3) (vector-ref p 2)
      (let-values ([(r) ((vector-ref p 1))])
        (begin (vector-set! p 2 r) (vector-set! p 3 #t) r)))))
"""


class DInterp(LibInterp):
    def install(self):
        super().install()
        for d in rdr.parse_all(PROMISES)[0]:
            self.ev(todata(d), self.top)


def todata(d):
    if isinstance(d, Pair) or d is NIL:
        xs, t = unlist(d)
        if len(xs) == 2 and xs[0] == Sym("quote"):
            return [QUOTE, xs[1]]
        return [todata(x) for x in xs]
    return d


class G17:
    """programs: every subexpression that matters is traced; names are chosen so that they shadow one another"""
    INTS = [S(x) for x in ("x", "y", "n", "tmp", "or-t", "loop", "t", "acc", "i")]
    FNS = [S(x) for x in ("f", "g", "h", "go", "loop")]

    def __init__(self, r):
        self.r, self.k, self.uses = r, 0, {}
        self.size = 0

    def use(self, w):
        self.uses[w] = self.uses.get(w, 0) + 1

    def tr(self, e):
        self.k += 1
        return [S("tr"), self.k, e]

    # env: name -> "int" or ("fn", n) (functions from ints to an int)
    def pick(self, env, t):
        xs = [n for n, u in env.items() if u == t]
        return self.r.choice(xs) if xs else None

    def i(self, env, d):
        """an expression whose value is an integer"""
        r = self.r
        self.size += 1
        if d <= 0 or self.size > 160 or r.random() < .12:
            v = self.pick(env, "int")
            if v is not None and r.random() < .7:
                return v
            return r.choice([0, 1, 2, 3, 5, 7, -1, 10])
        return r.choice(self.IS)(self, env, d - 1)

    def b(self, env, d):
        """an expression used as a condition"""
        r = self.r
        self.size += 1
        if d <= 0 or self.size > 160:
            return r.choice([True, False, [S("="), self.i(env, 0), self.i(env, 0)], [S("<"), self.i(env, 0), self.i(env, 0)]])
        k = r.randrange(10)
        if k < 3:
            return [S(r.choice(["=", "<", ">", "<="])), self.i(env, d - 1), self.i(env, d - 1)]
        if k == 3:
            self.use("and")
            return [S("and")] + [self.b(env, d - 1) for _ in range(r.choice([0, 1, 2, 3, 4]))]
        if k == 4:
            self.use("or")
            return [S("or")] + [self.b(env, d - 1) for _ in range(r.choice([0, 1, 2, 3, 4]))]
        if k == 5:
            return [S("not"), self.b(env, d - 1)]
        if k == 6:
            return self.tr(self.b(env, d - 1))
        if k == 7:
            return self.i(env, d - 1)           # any integer is true
        if k == 8:
            self.use("cond")
            return [S("cond")] + [[self.b(env, d - 1), self.b(env, d - 1)] for _ in range(r.choice([1, 2]))] + [[S("else"), self.b(env, d - 1)]]
        return [r.choice([S("null?"), S("pair?")]), [QUOTE, r.choice([NIL, lst([1])])]]

    def names(self, k, env, fn=False):
        return self.r.sample(self.INTS, k)

    # -- expressions
    def arith(self, env, d):
        return [S(self.r.choice("+-")), self.i(env, d), self.i(env, d)]

    def trace(self, env, d):
        return self.tr(self.i(env, d))

    def if_(self, env, d):
        return [IF, self.b(env, d), self.i(env, d), self.i(env, d)]

    def cond(self, env, d):
        self.use("cond")
        return [S("cond")] + [[self.b(env, d)] + self.body(env, d, .3) for _ in range(self.r.choice([0, 1, 2, 3]))] + [[S("else")] + self.body(env, d, .3)]

    KEYS = [0, 1, 2, 3, 5, S("a"), S("else"), True, False, Str("s"), Char("c"), NIL, lst([1, 2]), 100, -1, 10]

    def case(self, env, d):
        r = self.r
        self.use("case")
        if r.random() < .6:
            v = self.i(env, d)
        else:
            v = [QUOTE, r.choice(self.KEYS)]
            if r.random() < .5:
                v = self.tr(v)
        cl = [[[r.choice(self.KEYS) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]] + self.body(env, d, .3) for _ in range(r.choice([0, 1, 2, 3, 5]))]
        e = [S("case"), v] + cl + [[S("else")] + self.body(env, d, .3)]
        return e

    def andor(self, env, d):
        r = self.r
        if r.random() < .5:
            self.use("or")
            return [S("or")] + [r.choice([False, [S("and"), self.b(env, d), False], [S("not"), self.i(env, d)]]) for _ in range(r.choice([0, 1, 2]))] + [self.i(env, d)]
        self.use("and")
        return [S("and")] + [r.choice([True, self.i(env, d)]) for _ in range(r.choice([0, 1, 2]))] + [self.i(env, d)]

    def let(self, env, d):
        self.use("let")
        ns = self.names(self.r.choice([0, 1, 1, 2, 3]), env)
        e2 = dict(env)
        e2.update({n: "int" for n in ns})
        return [S("let"), [[n, self.i(env, d)] for n in ns]] + self.body(e2, d)

    def letstar(self, env, d):
        self.use("let*")
        e2 = dict(env)
        bs = []
        for _ in range(self.r.choice([0, 1, 2, 3, 4])):
            n = self.r.choice(self.INTS)
            bs.append([n, self.i(e2, d)])
            e2[n] = "int"
        return [S("let*"), bs] + self.body(e2, d)

    def letvalues(self, env, d):
        self.use("let-values")
        r = self.r
        pool = self.names(r.choice([1, 2, 3, 4]), env)
        bs, e2 = [], dict(env)
        while pool:
            k = r.randrange(1, len(pool) + 1)
            ns, pool = pool[:k], pool[k:]
            bs.append([ns, self.i(env, d) if k == 1 else [S("values")] + [self.i(env, d) for _ in ns]])
            e2.update({n: "int" for n in ns})
        if r.random() < .1:
            bs.append([[], [BEGIN, self.tr(1), [S("values")]]])
        return [LETV, bs] + self.body(e2, d)

    def fn(self, env, d, n, self_name=None):
        """a lambda of n integers"""
        r = self.r
        ns = self.names(n, env)
        e2 = dict(env)
        if self_name:
            e2.pop(self_name, None)
        e2.update({x: "int" for x in ns})
        return [LAM, ns] + self.body(e2, d)

    def letrec(self, env, d):
        """functions that call the ones before them, and count down through themselves"""
        r = self.r
        self.use("letrec")
        ns = r.sample(self.FNS, r.choice([1, 2, 3]))
        e2 = {k: v for k, v in env.items() if k not in ns}
        bs = []
        for n in ns:
            a = r.choice([1, 2])
            if r.random() < .5:
                bs.append([n, self.fn(e2, d, a)])
            else:
                x = self.r.choice([z for z in self.INTS if z not in ns])
                e3 = self.noset(e2, x)
                e3[x] = "int"
                a = 1
                bs.append([n, [LAM, [x], [S("if"), [S("<"), x, 1], self.i(e3, d - 1), [S("+"), self.i(e3, 1), [n, [S("-"), [S("if"), [S(">"), x, 4], 4, x], 1]]]]]])
            e2[n] = ("fn", a)
        e4 = dict(env)
        e4.update({n: e2[n] for n in ns})
        if r.random() < .3:
            # even and odd
            self.use("mutual recursion")
            ev, od = S("ev?"), S("od?")
            bs.append([ev, [LAM, [S("n")], [S("or"), [S("="), S("n"), 0], [od, [S("-"), S("n"), 1]]]]])
            bs.append([od, [LAM, [S("n")], [S("and"), [S("not"), [S("="), S("n"), 0]], [ev, [S("-"), S("n"), 1]]]]])
            return [S("letrec"), bs, [S("if"), [r.choice([ev, od]), r.randrange(9)], self.i(e4, d), self.i(e4, d)]]
        return [S("letrec"), bs] + self.body(e4, d)

    def named(self, env, d):
        self.use("named let")
        r = self.r
        lp = r.choice(self.FNS + [S("loop")] * 3)
        ns = [n for n in r.sample(self.INTS, r.choice([1, 2, 3])) if n != lp]
        while not ns:
            ns = [n for n in r.sample(self.INTS, 2) if n != lp]
        e2 = {k: v for k, v in env.items() if k != lp}
        e2.update({n: "int" for n in ns})
        c = ns[0]
        e2 = self.noset(e2, c)
        lim = r.choice([1, 2, 3, 4])
        step = [lp, [S("+"), c, 1]] + [self.i(e2, d - 1) for _ in ns[1:]]
        e3 = dict(e2)
        inner = r.choice([step, self.tr(step), [S("+"), self.i(e2, 1), step], [S("begin"), self.stmt(self.noset(e2, c), d - 1), step]])
        if r.random() < .5:
            # the call is made from inside of other forms
            inner = r.choice([
                lambda: [S("cond"), [self.b(e2, 1), inner], [S("else"), inner]],
                lambda: [S("case"), c, [[0, 1], inner], [S("else"), inner]],
                lambda: [S("or"), False, inner],
                lambda: [S("and"), True, inner],
                lambda: [S("do"), [[S("j"), 0, [S("+"), S("j"), 1]]], [[S("="), S("j"), 2], inner], self.stmt(self.noset(e2, c), d - 1)],
            ])()
        return [S("let"), lp, [[c, [S("-"), 0, lim]]] + [[n, self.i(env, d)] for n in ns[1:]],
                [S("if"), [S(">="), c, 0], self.i(e2, d - 1), inner]]

    def noset(self, env, c):
        e = dict(env)
        e["!"] = e.get("!", ()) + (c,)
        return e

    def do(self, env, d):
        self.use("do")
        r = self.r
        ns = self.names(r.choice([1, 2, 3]), env)
        e2 = dict(env)
        e2.update({n: "int" for n in ns})
        c = ns[0]
        e2 = self.noset(e2, c)
        res = [self.stmt(e2, d - 1) for _ in range(r.choice([0, 0, 1]))] + [self.i(e2, d - 1)]
        return [S("do"), [[c, 0, [S("+"), c, 1]]] + [[n, self.i(env, d - 1), self.i(e2, d - 2)] for n in ns[1:]],
                [[S("="), c, r.choice([0, 1, 2, 3])]] + res] + [self.stmt(e2, d - 1) for _ in range(r.choice([0, 1, 1, 2]))]

    def begin(self, env, d):
        return [BEGIN] + [self.stmt(env, d) for _ in range(self.r.choice([0, 1, 2]))] + [self.i(env, d)]

    def delayed(self, env, d):
        self.use("delay")
        p = S("p")
        e2 = {k: v for k, v in env.items() if k != p}
        b = [S("delay")] + self.body(env, d)
        k = self.r.choice([0, 1, 2, 3])
        if k == 0:
            return [S("let"), [[p, b]], self.i(e2, d)]
        return [S("let"), [[p, b]], [S("+"), [S("force"), p], self.i(e2, d - 1)] + [[S("force"), p]] * (k - 1)]

    def call(self, env, d):
        r = self.r
        fs = [(n, u) for n, u in env.items() if isinstance(u, tuple) and u and u[0] == "fn"]
        if fs and r.random() < .75:
            n, u = r.choice(fs)
            self.use("calls of bound procedures")
            return [n] + [self.i(env, d) for _ in range(u[1])]
        k = r.choice([0, 1, 2, 3])
        if r.random() < .3:
            n2 = k + 1
            self.use("case-lambda")
            cl = [[f[1]] + f[2:] for f in (self.fn(env, d, n2), self.fn(env, d, k))]
            r.shuffle(cl)
            return [[CASE] + cl] + [self.i(env, d) for _ in range(k)]
        return [self.fn(env, d, k)] + [self.i(env, d) for _ in range(k)]

    def setter(self, env, d):
        v = self.settable(env)
        if v is None:
            return self.trace(env, d)
        self.use("set!")
        return [BEGIN, [SET, v, self.i(env, d)], self.i(env, d)]

    def settable(self, env):
        no = env.get("!", ())
        xs = [n for n, u in env.items() if u == "int" and n not in no]
        return self.r.choice(xs) if xs else None

    IS = [arith, arith, trace, trace, trace, if_, cond, cond, case, case, andor, andor, let, let, letstar, letstar, letvalues, letrec, named, named, do, do, begin,
          delayed, call, call, call, setter]

    # -- statements: any value, used for effect
    def stmt(self, env, d):
        r = self.r
        k = r.randrange(8)
        if d <= 0 or k == 0 or self.size > 160:
            return self.tr(self.i(env, 0))
        if k == 1:
            self.use("when")
            return [S("when"), self.b(env, d - 1)] + self.body(env, d - 1)
        if k == 2:
            self.use("unless")
            return [S("unless"), self.b(env, d - 1)] + self.body(env, d - 1)
        if k == 3:
            v = self.settable(env)
            if v is not None:
                self.use("set!")
                return [SET, v, self.i(env, d - 1)]
        if k == 4:
            self.use("case without else")
            return [S("case"), self.i(env, d - 1)] + [[[r.choice(self.KEYS) for _ in range(r.choice([1, 2]))]] + self.body(env, d - 1, .3) for _ in range(r.choice([0, 1, 2]))]
        if k == 5:
            self.use("cond without else")
            return [S("cond")] + [[self.b(env, d - 1)] + self.body(env, d - 1, .3) for _ in range(r.choice([0, 1, 2]))]
        return self.i(env, d - 1)

    def body(self, env, d, more=.6):
        """a body: definitions and statements, then an expression"""
        r = self.r
        if r.random() > more or d <= 0:
            return [self.i(env, d)]
        out = []
        if r.random() < .5:
            # internal definitions
            self.use("internal definitions")
            ns = r.sample(self.INTS + [x for x in self.FNS if x not in self.INTS], r.choice([1, 2, 3, 4]))
            e2 = {k: v for k, v in env.items() if k not in ns}
            items = []
            while ns:
                k = r.randrange(6)
                n = ns.pop(0)
                if k < 2:
                    items.append(([S("define"), n, self.i(e2, d - 1)], {n: "int"}))
                elif k == 2 and ns:
                    m = ns.pop(0)
                    self.use("internal define-values")
                    items.append(([DEF, [n, m], [S("values"), self.i(e2, d - 1), self.i(e2, d - 1)]], {n: "int", m: "int"}))
                elif k == 3 and ns:
                    m = ns.pop(0)
                    self.use("spliced definitions")
                    items.append(([BEGIN, [S("define"), n, self.i(e2, d - 1)], self.tr(1), [S("define"), m, self.i(e2, d - 1)]], {n: "int", m: "int"}))
                elif k == 4:
                    a, c = r.choice([1, 2]), r.choice([0, 1])
                    self.use("curried define")
                    x, y = r.sample([z for z in self.INTS if z != n], 2)
                    e3 = dict(e2)
                    e3.update({x: "int", y: "int"})
                    items.append(([S("define"), [[n, x], y]] + self.body(e3, d - 1), {n: ("fn2",)}))
                else:
                    a = r.choice([0, 1, 2])
                    f = self.fn(e2, d - 1, a)
                    items.append(([S("define"), [n] + f[1]] + f[2:], {n: ("fn", a)}))
                e2 = dict(e2)
                e2.update(items[-1][1])
                out.append(items[-1][0])
                if r.random() < .25:
                    out.append(self.stmt(e2, d - 1))
            if r.random() < .15:
                out.insert(0, self.stmt({k: v for k, v in env.items() if k in e2 and all(k not in u for _, u in items)}, d - 1))
            cur = [n for n, u in e2.items() if u == ("fn2",)]
            if cur and r.random() < .8:
                return out + [[S("+"), [[r.choice(cur), self.i(e2, d - 1)], self.i(e2, d - 1)], self.i(e2, d - 1)]]
            return out + [self.i(e2, d)]
        out = [self.stmt(env, d - 1) for _ in range(r.choice([1, 1, 2, 3]))]
        return out + [self.i(env, d)]

    def program(self):
        r = self.r
        forms = [[S("define"), [S("tr"), S("n"), S("v")], [S("display"), S("n")], [S("display"), Str(" ")], S("v")]]
        env = {}
        for _ in range(r.choice([1, 2, 3, 4])):
            self.size = 0
            k = r.randrange(5)
            if k == 0:
                n = S("g%d" % len(forms))
                forms.append([S("define"), n, self.i(env, 4)])
                env[n] = "int"
            elif k == 1:
                n = S("g%d" % len(forms))
                a = r.choice([1, 2])
                f = self.fn(env, 4, a)
                forms.append([S("define"), [n] + f[1]] + f[2:])
                env[n] = ("fn", a)
            else:
                d = r.choice([3, 4, 5, 6])
                forms.append([BEGIN, [S("write"), self.i(env, d)], [S("newline")]])
        forms.append([BEGIN, [S("write"), self.i(env, 4)], [S("newline")]])
        return forms
