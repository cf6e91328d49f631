#!/usr/bin/env python3
import _p
import random
import vp, mon, core
from sexp import *
from refeval import *
from mon import Q

RULE = ("histories of 20 to 600 hashtable operations on up to four tables (eq, equal, caller's own hash and equivalence) over "
        "universes of colliding and non-colliding keys of every type, copies included; the whole contents (reference of "
        "every universe key, keys, values and entries as multisets, size) are compared with a finite map after every "
        "few operations; loops of up to 20000 keys for growth and shrinking; a case is one history")
S = Sym

# occurrences of x in a vector under p
HELP = [
    [DEF, [S("occ")], [LAM, [S("p"), S("x"), S("v")],
        [LETREC, [[[S("loop")], [LAM, [S("i"), S("n")],
            [IF, [S("="), S("i"), [S("vector-length"), S("v")]], S("n"),
                [S("loop"), [S("add1"), S("i")], [IF, [S("p"), S("x"), [S("vector-ref"), S("v"), S("i")]], [S("add1"), S("n")], S("n")]]]]]],
            [S("loop"), 0, 0]]]],
    # every entry's key maps to the entry's value
    [DEF, [S("agree")], [LAM, [S("t"), S("ks"), S("vs")],
        [LETREC, [[[S("loop")], [LAM, [S("i")],
            [IF, [S("="), S("i"), [S("vector-length"), S("ks")]], True,
                [IF, [S("eq?"), [S("hashtable-ref"), S("t"), [S("vector-ref"), S("ks"), S("i")], False], [S("vector-ref"), S("vs"), S("i")]],
                    [S("loop"), [S("add1"), S("i")]], S("i")]]]]],
            [S("loop"), 0]]]],
    [DEF, [S("sum")], [LAM, [S("v")], [S("apply"), S("+"), [S("vector->list"), S("v")]]]],
]


def universe(r):
    """key expressions; the same text twice is two equal objects"""
    k = r.choice(["int", "int", "mixed", "str", "deep", "big", "sym"])
    n = r.choice([3, 8, 20, 60])
    if k == "int":
        m = r.choice([1, 13, 61, 1 << 20, 1 << 40])
        return [i * m for i in range(n)]
    if k == "big":
        return [r.randint(-(1 << 62), 1 << 62) for _ in range(n)]
    if k == "str":
        return [[S("string-append"), Str("k"), [S("number->string"), i]] for i in range(n)]
    if k == "sym":
        return [Q(S("k%d" % i)) for i in range(n)]
    if k == "deep":
        out = []
        for i in range(n):
            out.append(r.choice([[S("list"), i, i], [S("cons"), 1, i], [S("vector"), i, 2], [S("box"), i],
                                 [S("list"), [S("list"), i % 3], [S("string"), Char("a")], i], [S("vector"), [S("box"), i]],
                                 [S("list"), i], [S("cons"), i, Q(NIL)], [S("vector"), i]]))
        return out
    return [0, False, Q(NIL), True, Char("a"), Char("0"), Q(S("a")), [S("string"), Char("a")], Q(S("b")), [S("list"), 0], [S("vector")],
            [S("vector"), 0], [S("box"), 0], [S("list"), 1, 2], [S("cons"), 1, 2], 97, 48, -1, [S("make-string"), 0], [S("void")], S("car"), S("cdr"),
            [S("list"), Q(S("a"))], [S("list"), [S("string"), Char("a")]], [S("box"), [S("box"), 0]], 1 << 62, -(1 << 63), [S("string"), Char("0")]][:n]


def procs(r):
    """hash and equivalence of a custom table over integers: equivalent values hash alike"""
    m = r.choice([1, 2, 5, 10, 1000])
    mod = lambda x: [S("modulo"), x, m]
    h = r.choice([mod(S("x")), 0, [S("-"), mod(S("x"))], [S("*"), mod(S("x")), 1 << 58], [S("sub1"), [S("-"), mod(S("x"))]],
                  [S("hashtable-ref"), S("aux"), mod(S("x")), 7]])
    hb = [h]
    if r.random() < .3:         # a hash procedure that uses tables itself
        hb = [[S("hashtable-update!"), S("aux2"), 0, S("add1"), 0], [S("hashtable-contains?"), S("aux"), S("x")], h]
    e = [S("="), mod(S("x")), mod(S("y"))]
    eb = [e]
    if r.random() < .3:
        eb = [[S("hashtable-set!"), S("aux3"), S("x"), S("y")], [S("hashtable-ref"), S("aux3"), S("x"), 0], e]
    return [LAM, [S("x")]] + hb, [LAM, [S("x"), S("y")]] + eb


class Hist:
    def __init__(self, r, n):
        self.r = r
        self.forms = list(HELP)
        self.kind = r.choice(["eq", "equal", "equal", "custom"])
        f = self.forms.append
        for a in ("aux", "aux2", "aux3"):
            f([DEF, [S(a)], [S("make-eq-hashtable")]])
        for i in range(10):
            if r.random() < .5:
                f([S("hashtable-set!"), S("aux"), i, r.randrange(-5, 5)])
        if self.kind == "custom":
            h, e = procs(r)
            f([DEF, [S("hp")], h])
            f([DEF, [S("ep")], e])
            self.mk = [S("make-custom-hashtable"), S("hp"), S("ep")]
            self.p = S("ep")
            u = [r.randint(-30, 30) for _ in range(r.choice([5, 20, 40]))]
        else:
            self.mk = [S("make-eq-hashtable")] if self.kind == "eq" else [S("make-hashtable")]
            self.p = S("eq?" if self.kind == "eq" else "equal?")
            u = universe(r)
        self.u = []
        for i, x in enumerate(u):
            n_ = S("k%d" % i)
            f([DEF, [n_], x])
            self.u.append((n_, x))
        self.t = [S("t0")]
        f([DEF, [S("t0")], self.mk])
        ins = r.choice([.15, .35, .5, .7])
        phase = 0
        for i in range(n):
            if i % 40 == 39 and r.random() < .5:
                ins = r.choice([.05, .15, .35, .5, .7])
            self.op(ins)
            if i % r.choice([3, 10, 30]) == 0:
                self.look(r.choice(self.t), 3)
        for t in self.t:
            self.look(t, 10 ** 6)

    def key(self):
        n, x = self.r.choice(self.u)
        if isinstance(x, list) and self.kind != "eq" and self.r.random() < .5:
            return x            # an equal key that is another object
        if isinstance(x, list) and self.kind == "eq" and x[0] != QUOTE and x[1:] and self.r.random() < .1:
            return x            # never in an eq table
        return n

    def val(self):
        return self.r.randint(0, 10 ** 6)

    def op(self, ins):
        r, f = self.r, self.forms.append
        t = r.choice(self.t)
        k = r.random()
        if k < ins:
            f([S("hashtable-set!"), t, self.key(), self.val()])
        elif k < ins + .12:
            m = r.random()
            up = r.choice([S("add1"), [LAM, [S("x")], self.val()], [LAM, [S("x")], [S("+"), S("x"), [S("hashtable-size"), t]]]])
            if m < .8:
                f([S("hashtable-update!"), t, self.key(), up, r.choice([0, self.val(), [LAM, [], self.val()]])])
            elif m < .9:
                # the updater changes the same table
                f([S("hashtable-update!"), t, self.key(), [LAM, [S("x")], [S("hashtable-set!"), t, self.key(), self.val()], [S("add1"), S("x")]], 5])
            else:
                f([S("hashtable-update!"), t, self.key(), [LAM, [S("x")], [S("hashtable-delete!"), t, self.key()], [S("add1"), S("x")]], 5])
        elif k < ins + .14 and len(self.t) < 4:
            n = S("t%d" % len(self.t))
            f([DEF, [n], r.choice([[S("hashtable-copy"), t], [S("hashtable-copy"), t], self.mk])])
            self.t.append(n)
        elif k < ins + .15:
            f([S("hashtable-clear!"), t])
        elif k < ins + .16 and len(self.t) > 1:
            f([SET, t, [S("hashtable-copy"), r.choice(self.t)]])
        elif k < ins + .3:
            f(r.choice([[S("hashtable-ref"), t, self.key(), Q(S("none"))],
                        [S("hashtable-ref"), t, self.key(), [LAM, [], [S("hashtable-size"), t]]],
                        [S("hashtable-contains?"), t, self.key()], [S("hashtable-size"), t]]))
        else:
            f([S("hashtable-delete!"), t, self.key()])

    def look(self, t, n):
        f = self.forms.append
        u = self.u if n >= len(self.u) else self.r.sample(self.u, n)
        names = [x[0] for x in u]
        f([S("list"), [S("hashtable-size"), t], [S("vector-length"), [S("hashtable-keys"), t]], [S("vector-length"), [S("hashtable-vals"), t]],
           [S("sum"), [S("hashtable-vals"), t]], [CWV, [LAM, [], [S("hashtable-entries"), t]], [LAM, [S("ks"), S("vs")], [S("agree"), t, S("ks"), S("vs")]]]])
        f([LETV, [[[S("ks")], [S("hashtable-keys"), t]]], [S("list")] + [[S("list"), [S("hashtable-ref"), t, x, Q(S("-"))], [S("occ"), self.p, x, S("ks")]] for x in names]])


def growth(r, big=False):
    """loops over many keys, checked inside the program; expected values by arithmetic"""
    n = r.choice([14, 100, 1000, 3000] + ([20000] if big else []))
    d = r.choice([2, 3, 5, 7])
    key = r.choice([S("i"), [S("*"), S("i"), 1 << 20], [S("-"), S("i")], [S("number->string"), S("i")], [S("list"), S("i"), S("i")],
                    [S("string->symbol"), [S("number->string"), S("i")]]])
    eqk = not (isinstance(key, list) and key[0] in ("number->string", "list"))
    if not eqk:
        # (lists of integers all have one hash: quadratic)
        n = min(n, 100 if key[0] == "list" else 1000)
    mk = r.choice(["make-hashtable", "make-eq-hashtable"]) if eqk else "make-hashtable"
    loop = lambda name, body: [LETREC, [[[S("lp")], [LAM, [S("i")], [IF, [S("="), S("i"), n], Q(S(name)), [BEGIN] + body + [[S("lp"), [S("add1"), S("i")]]]]]]], [S("lp"), 0]]
    keep = len([i for i in range(n) if i % d])
    sm = sum(i * 3 for i in range(n) if i % d)
    return [
        ([DEF, [S("t")], [S(mk)]], None),
        (loop("a", [[S("hashtable-set!"), S("t"), key, [S("*"), 3, S("i")]]]), "a"),
        ([DEF, [S("c")], [S("hashtable-copy"), S("t")]], None),
        (loop("b", [[IF, [S("="), 0, [S("modulo"), S("i"), d]], [S("hashtable-delete!"), S("t"), key], [S("void")]]]), "b"),
        ([S("list"), [S("hashtable-size"), S("t")], [S("vector-length"), [S("hashtable-keys"), S("t")]],
          [S("apply"), S("+"), [S("vector->list"), [S("hashtable-vals"), S("t")]]], [S("hashtable-size"), S("c")]], "(%d %d %d %d)" % (keep, keep, sm, n)),
        ([BEGIN, [DEF, [S("bad")], 0],
          loop("x", [[IF, [S("eq?"), [S("hashtable-ref"), S("t"), key, False], [IF, [S("="), 0, [S("modulo"), S("i"), d]], False, [S("*"), 3, S("i")]]],
                      [S("void")], [SET, S("bad"), [S("add1"), S("bad")]]],
                     [IF, [S("eq?"), [S("hashtable-ref"), S("c"), key, False], [S("*"), 3, S("i")]], [S("void")], [SET, S("bad"), [S("add1"), S("bad")]]]]),
          S("bad")], "0"),
        (loop("d", [[S("hashtable-delete!"), S("t"), key]]), "d"),
        ([S("list"), [S("hashtable-size"), S("t")], [S("hashtable-keys"), S("t")], [S("hashtable-size"), S("c")]], "(0 #() %d)" % n),
        (loop("e", [[S("hashtable-update!"), S("t"), key, S("add1"), S("i")]]), "e"),
        ([S("apply"), S("+"), [S("vector->list"), [S("hashtable-vals"), S("t")]]], str(sum(i + 1 for i in range(n)))),
        ([S("hashtable-clear!"), S("t")], None),
        ([S("hashtable-size"), S("t")], "0"),
        ([S("hashtable-ref"), S("t"), 0, Q(S("gone"))], "gone"),
    ]


def growth_prog(r, big):
    g = growth(r, big)
    return ([f for f, _ in g], ("".join((w if w is not None else "#<void>") + "\n" for _, w in g) + "#<end>\n", None))


def main():
    ck = vp.Check("C09", RULE)
    r = ck.rng
    asan, plain = ck.server("asan"), ck.server("plain")
    try:
        for rnd in range(ck.n(2, 40)):
            progs = []
            for i in range(ck.n(260, 400)):
                n = r.choices([20, 60, 200, 600], [4, 4, 2, 1])[0]
                h = Hist(r, n)
                w = mon.expect(h.forms, limit=3000000)
                if w is None or w[1]:
                    ck.count("outside the model")
                    continue
                ck.count("operations", n)
                ck.count("histories on %s tables" % h.kind)
                progs.append((h.forms, w))
            for i in range(30):
                progs.append(growth_prog(r, rnd % 2))
                ck.count("growth loops")
            srv, v = ((asan, "asan"), (plain, "plain"))[rnd % 2]
            mon.Programs(ck, srv, v, cpu=40).run(progs)
            if ck.viol:
                break
    finally:
        asan.close()
        plain.close()
    ck.finish()


if __name__ == "__main__":
    vp.main(main)
