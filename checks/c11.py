#!/usr/bin/env python3
import _p
import random
import vp, mon, core, libm
from sexp import *
from refeval import *
from mon import Q

RULE = ("histories of list, vector, string and character operations over shared mutable data: after every operation the whole "
        "store is printed, so a wrong result, a modified argument or unexpected sharing shows; higher-order calls trace the "
        "order of their calls; lengths 0 to 2000; a case is one history or one group of calls")
S = Sym
ATOMS = [0, 1, 2, 3, 7, -1, -5, 100, True, False, S("a"), S("b"), S("c"), S("zz"), Char("x"), Char(" "), Char("\n")]
CH = [Char(c) for c in "abcxyz01 \n\"\\"] + [Char("\x7f"), Char("\xe9")]


def atom(r):
    return r.choice(ATOMS)


def qa(x):
    return Q(x) if isinstance(x, Sym) else x


def size(r):
    return r.choices([r.randint(0, 3), r.randint(0, 9), r.randint(10, 40)], [5, 5, 1])[0]


def alist(r, n=None):
    n = size(r) if n is None else n
    return [atom(r) if r.random() < .85 else [atom(r) for _ in range(r.randint(0, 3))] for _ in range(n)]


def text(r, n=None):
    n = size(r) if n is None else n
    return "".join(r.choice(CH).c for _ in range(n))


class Hist:
    """a history over variables l0.. (lists), v0.. (vectors), s0.. (strings); `lib`: with the library's procedures"""

    def __init__(self, r, lib):
        self.r, self.lib = r, lib
        self.k = 0
        self.vars = {"l": [], "v": [], "s": []}
        self.forms = []
        self.it = (libm.LibInterp if lib else core.FullInterp)()

    def init(self):
        r = self.r
        for t, f in (("l", lambda: [S("list")] + [self.q(x) for x in alist(r)]),
                     ("v", lambda: [S("vector")] + [self.q(x) for x in alist(r)]),
                     ("s", lambda: [S("string-append"), Str(text(r)), Str("")])):
            for i in range(3):
                self.define(t, f())

    def q(self, x):
        return Q(x) if isinstance(x, (Sym, list)) else x

    def define(self, t, e, n=None):
        if n is None:
            n = S("%s%d" % (t, len(self.vars[t])))
        f = [DEF, [n], e] if n not in self.vars[t] else [SET, n, e]
        self.it.ev(f, self.it.top)
        self.forms.append(f)
        if n not in self.vars[t]:
            self.vars[t].append(n)

    def do(self, e):
        v = self.it.ev(e, self.it.top)
        self.forms.append(e if not self.lib else [BEGIN, [S("write"), e], [S("newline")]])
        return v

    def val(self, n):
        return self.it.top.b[n]

    def var(self, t):
        return self.r.choice(self.vars[t])

    def fn(self, n, pred=False):
        """a procedure of n arguments that traces its calls"""
        r = self.r
        xs = [S("x%d" % i) for i in range(n)]
        tr = [S("display"), [S("list"), Q(S("t"))] + xs]
        if pred:
            m = r.random()
            if m < .4:
                b = [S("not"), [S("eq?"), xs[0], qa(atom(r))]]
            elif m < .8:
                b = [S("eq?"), xs[-1], qa(atom(r))]
            else:
                b = r.choice([True, False, xs[0]])
        else:
            b = r.choice([[S("list")] + xs, [S("cons"), xs[0], xs[-1]], xs[-1], [S("vector")] + xs,
                          [S("equal?"), xs[0], xs[-1]]])
        body = [tr, b] if r.random() < .8 else [b]
        k = r.random()
        if k < .6:
            return [LAM, xs] + body
        if k < .8:
            return [CASE, [[S("y")] * 0 + [S("y%d" % i) for i in range(n + 1)], Q(S("no"))], [xs] + body]
        return [LAM, S("all"), [S("apply"), [LAM, xs] + body, S("all")]]

    def lists_same(self, n):
        """n list expressions of one length"""
        r = self.r
        a = self.var("l")
        k = len(unlist(self.val(a))[0])
        out = [a]
        for _ in range(n - 1):
            m = r.random()
            same = [v for v in self.vars["l"] if len(unlist(self.val(v))[0]) == k]
            out.append(r.choice(same) if m < .3 else [S("reverse"), a] if m < .5 else [S("iota"), k] if m < .7 else
                       [S("list")] + [self.q(x) for x in alist(r, k)])
        r.shuffle(out)
        return out

    def idx(self, n):
        return self.r.randrange(n) if n else 0

    def lexp(self):
        r = self.r
        a = self.var("l")
        n = len(unlist(self.val(a))[0])
        c = ["reverse", "append", "map", "vl", "sl", "enum", "iota", "mk", "cdr", "list", "cons"]
        if self.lib:
            c += ["remove", "removes", "filter", "foldl", "foldr", "lset", "cons*", "filter", "lset"]
        k = r.choice(c)
        if k == "reverse":
            return [S("reverse"), a]
        if k == "append":
            # whether the last argument is shared is not specified: it is fresh here
            m = r.choice([0, 1, 1, 1, 2, 4])
            return [S("append")] + [r.choice([self.var("l"), self.var("l"), Q(alist(r))]) for _ in range(m)] + ([Q(alist(r))] if m else [])
        if k == "map":
            m = r.choice([1, 1, 1, 2, 3, 4])
            return [S("map"), self.fn(m)] + self.lists_same(m)
        if k == "vl":
            return [S("vector->list"), self.var("v")]
        if k == "sl":
            return [S("string->list"), self.var("s")]
        if k == "enum":
            return [S("enumerate"), a]
        if k == "iota":
            return [S("iota"), size(r)]
        if k == "mk":
            return [S("make-list"), size(r), r.choice([self.q(atom(r)), self.var("s")])]
        if k == "cdr":
            return [S("cdr"), a] if n else [S("list"), 1, 2]
        if k == "list":
            return [S("list")] + [r.choice([self.q(atom(r)), self.var("s"), self.var("v")]) for _ in range(r.randint(0, 5))]
        if k == "cons":
            return [S("cons"), self.q(atom(r)), a]
        if k == "remove":
            return [S("remove"), self.elem(a), a]
        if k == "removes":
            return [S("reverse"), [S("remove*"), [S("list")] + [self.elem(a) for _ in range(r.randint(0, 3))], a]]
        if k == "filter":
            return [S("filter"), self.fn(1, True), a]
        if k == "foldl":
            return [S("foldl"), [LAM, [S("acc"), S("x")], [S("display"), S("x")], [S("cons"), S("x"), S("acc")]], Q(NIL), a]
        if k == "foldr":
            return [S("foldr"), [LAM, [S("acc"), S("x")], [S("display"), S("x")], [S("cons"), S("x"), S("acc")]], r.choice([Q(NIL), self.var("l")]), a]
        if k == "lset":
            return [S("reverse"), [S("list-set"), a, self.idx(n), self.q(atom(r))]] if n else [S("reverse"), a]
        return [S("cons*")] + [self.q(atom(r)) for _ in range(r.randint(0, 3))] + [a]

    def elem(self, a):
        xs = [x for x in unlist(self.val(a))[0] if isinstance(x, (int, Sym, Char))]
        return self.q(self.r.choice(xs) if xs and self.r.random() < .7 else atom(self.r))

    def vexp(self):
        r = self.r
        return r.choice([lambda: [S("list->vector"), self.var("l")],
                         lambda: [S("vector")] + [r.choice([self.q(atom(r)), self.var("s"), self.var("l")]) for _ in range(r.randint(1, 6))],
                         lambda: [S("make-vector"), r.randint(1, 12), self.q(atom(r))],
                         lambda: [S("make-vector"), r.randint(1, 12)]])()

    def sexp(self):
        r = self.r
        c = ["app", "app", "mk", "l2s", "sym", "num", "lit", "fmt"]
        if self.lib:
            c += ["sub", "sub", "sub"]
        k = r.choice(c)
        if k == "app":
            return [S("string-append")] + [r.choice([self.var("s"), Str(text(r))]) for _ in range(r.choice([0, 2, 2, 3, 5]))]
        if k == "mk":
            return [S("make-string"), size(r), r.choice(CH)]
        if k == "l2s":
            return [S("list->string"), [S("reverse"), [S("string->list"), self.var("s")]]]
        if k == "sym":
            return [S("symbol->string"), [S("string->symbol"), self.var("s")]]
        if k == "num":
            return [S("number->string"), r.randint(-10 ** 6, 10 ** 6)]
        if k == "lit":
            return [S("string")] + [r.choice(CH) for _ in range(size(r))]
        if k == "fmt":
            return [S("format"), Str("~a|~s"), self.var("l"), self.var("s")]
        s = self.var("s")
        n = len(self.val(s).s)
        a, b = sorted((r.randint(0, n), r.randint(0, n)))
        return [S("substring"), s, a, b]

    def step(self):
        r = self.r
        k = r.random()
        if k < .35:
            self.define("l", self.lexp(), self.slot("l"))
        elif k < .45:
            self.define("v", self.vexp(), self.slot("v"))
        elif k < .57:
            self.define("s", self.sexp(), self.slot("s"))
        elif k < .78:
            self.mutate()
        else:
            self.query()

    def slot(self, t):
        return S("%s%d" % (t, self.r.randrange(6))) if len(self.vars[t]) >= 6 else None

    def mutate(self):
        r = self.r
        t = r.choice("lvs")
        n = self.var(t)
        x = self.val(n)
        if t == "l":
            xs = unlist(x)[0]
            if not xs:
                return
            j = r.randrange(min(len(xs), 6))
            e = n
            for _ in range(j):
                e = [S("cdr"), e]
            if r.random() < .75:
                self.do([S("set-car!"), e, self.q(atom(r))])
            else:
                self.do([S("set-cdr!"), e, r.choice([Q(NIL), [S("list"), self.q(atom(r))]])])
        elif t == "v":
            if not x.v:
                return
            if r.random() < .8:
                self.do([S("vector-set!"), n, r.randrange(len(x.v)), self.q(atom(r))])
            else:
                self.do([S("vector-fill!"), n, self.q(atom(r))])
        else:
            if not x.s:
                return
            self.do([S("string-set!"), n, r.randrange(len(x.s)), r.choice(CH)])

    def query(self):
        r = self.r
        c = ["length", "andmap", "ormap", "foreach", "vref", "sref", "slen", "vlen", "cxr", "pred", "char"]
        if self.lib:
            c += ["nth", "lref", "member", "assoc", "indexof", "foldl", "lref", "member"]
        k = r.choice(c)
        l, v, s = self.var("l"), self.var("v"), self.var("s")
        lv, vv, sv = unlist(self.val(l))[0], self.val(v).v, self.val(s).s
        if k == "length":
            e = [S("length"), l]
        elif k in ("andmap", "ormap"):
            m = r.choice([1, 1, 2, 3])
            e = [S(k), self.fn(m, True)] + self.lists_same(m)
        elif k == "foreach":
            m = r.choice([1, 1, 2, 3])
            e = [S("for-each"), self.fn(m)] + self.lists_same(m)
        elif k == "vref":
            e = [S("vector-ref"), v, r.randrange(len(vv))] if vv else [S("vector-length"), v]
        elif k == "sref":
            e = [S("string-ref"), s, r.randrange(len(sv))] if sv else [S("string-length"), s]
        elif k == "slen":
            e = [S("string-length"), s]
        elif k == "vlen":
            e = [S("vector-length"), v]
        elif k == "cxr":
            e = [S(r.choice(["car", "cadr", "cddr", "caddr", "cadddr", "cdddr", "cddddr"])), l] if len(lv) > 4 else [S("null?"), l]
        elif k == "pred":
            e = [S("map"), S(r.choice("pair? null? list? symbol? char? string? vector? integer? boolean? procedure? not box?".split())), l]
        elif k == "char":
            c = r.choice(CH)
            e = [S("list"), [S("char->integer"), c], [S("integer->char"), r.randrange(1, 256)],
                 [S("eq?"), c, [S("integer->char"), [S("char->integer"), c]]]]
        elif k == "nth":
            i = r.randrange(10)
            e = [S("first second third fourth fifth sixth seventh eighth ninth tenth".split()[i]), l] if len(lv) > i else [S("length"), l]
        elif k == "lref":
            e = [S("list-ref"), l, r.randrange(len(lv))] if lv else [S("null?"), l]
        elif k == "member":
            e = [S("member"), self.elem(l), l]
        elif k == "assoc":
            e = [S("assoc"), self.elem(l), [S("enumerate"), l]]
        elif k == "indexof":
            e = [S("index-of"), self.elem(l), l]
        else:
            e = [S("foldl"), [LAM, [S("a"), S("x")], [S("display"), [S("cons"), S("a"), S("x")]], [S("add1"), S("a")]], 0, l]
        self.do(e)

    def dump(self):
        self.do([S("list"), [S("list")] + self.vars["l"], [S("list")] + self.vars["v"], [S("list")] + self.vars["s"]])


def history(r, lib, steps):
    h = Hist(r, lib)
    h.init()
    for i in range(steps):
        h.step()
        if not lib or i % 4 == 3:
            h.dump()
    h.dump()
    return h.forms


def long_items(r):
    """long inputs and many lists"""
    n = r.choice([100, 500, 1000, 2000])
    m = r.randint(1, 9)
    xs = [S("x%d" % i) for i in range(m)]
    I = [S("iota"), n]
    return r.choice([
        [S("equal?"), [S("reverse"), [S("reverse"), I]], I],
        [S("length"), [S("append"), I, I, I]],
        [S("apply"), S("+"), [S("map"), S("+")] + [I] * m],
        [S("equal?"), [S("vector->list"), [S("list->vector"), I]], I],
        [S("map"), [LAM, xs, [S("+")] + xs]] + [[S("iota"), r.randint(5, 20) * 0 + 17]] * m,
        [S("string-length"), [S("list->string"), [S("map"), S("integer->char"), [S("map"), [LAM, [S("i")], [S("+"), 1, [S("remainder"), S("i"), 255]]], I]]]],
        [S("equal?"), [S("string->list"), [S("apply"), S("string"), [S("make-list"), n, Char("q")]]], [S("make-list"), n, Char("q")]],
        [S("vector-ref"), [S("apply"), S("vector"), I], n - 1],
        [S("andmap"), S("eq?"), I, I],
        [S("ormap"), [LAM, [S("x")], [IF, [S("="), S("x"), n - 1], Q(S("last")), False]], I],
        [S("string-append")] + [Str(text(r, r.randint(0, 60))) for _ in range(r.randint(2, 30))],
        [S("append")] + [Q(alist(r)) for _ in range(r.randint(2, 20))],
        [S("list->vector"), Q(alist(r, r.randint(0, 70)))],
        [S("enumerate"), Q(alist(r, r.randint(0, 70)))],
    ])


def rejects(r):
    """walks over things that are not lists of one length"""
    a, b = size(r), size(r) + 1
    f = S(r.choice(["map", "for-each", "andmap", "ormap"]))
    ls = [Q(alist(r, a)) for _ in range(r.randint(1, 3))]
    ls.insert(r.randint(0, len(ls)), Q(alist(r, a + b)) if r.random() < .6 else Q(lst(alist(r, a + 1), 5)))
    return [f, [LAM, S("xs"), [S("display"), S("xs")], True]] + ls


def main():
    ck = vp.Check("C11", RULE)
    r = ck.rng
    asan, plain = ck.server("asan"), ck.server("plain")
    try:
        for rnd in range(ck.n(4, 60)):
            progs = []
            for i in range(350):
                f = history(r, False, r.choice([10, 20, 40]))
                w = mon.expect(f)
                if w is None or w[1]:
                    ck.count("outside the model")
                    continue
                progs.append((f, w))
                ck.count("history steps", len(f))
            progs += mon.pack([[long_items(r)] for _ in range(60)], 20)
            progs += mon.pack([[rejects(r)] for _ in range(60)], 20)
            srv, v = ((asan, "asan"), (plain, "plain"))[rnd % 2]
            mon.Programs(ck, srv, v).run(progs)
            if ck.viol:
                break
    finally:
        asan.close()
        plain.close()
    lib = ck.library()
    try:
        for rnd in range(ck.n(1, 15)):
            progs = []
            for i in range(ck.n(160, 300)):
                f = history(r, True, r.choice([10, 20, 40]))
                w = mon.lib_expect(f, libm.LibInterp)
                if w is None or w[1]:
                    ck.count("outside the model")
                    continue
                ck.count("library history steps", len(f))
                progs.append((f, w))
            mon.LibPrograms(ck, lib).run(progs)
            if ck.viol:
                break
    finally:
        lib.close()
    ck.finish()


if __name__ == "__main__":
    vp.main(main)
