#!/usr/bin/env python3
import _p
import random
import vp, mon, core
from sexp import *
from refeval import *
from mon import Q

RULE = ("groups of 10 to 30 values of every type, built so that many are equal by different routes (literal, construction, reading, "
        "mutation, hashtables with different histories, records with equality procedures); the full matrices of eq? and equal? "
        "are compared with the model, and equal (eq) values are asked for equal hashes, before and after unrelated work; a case "
        "is one group")
S = Sym


class Interp10(core.FullInterp):
    """hash values are not modelled: here they are constant, so the hash laws hold"""
    def install(self):
        super().install()
        d = self.top.b
        d[Sym("equal-hash")].fn = lambda x: 0
        d[Sym("eq-hash")].fn = lambda x: 0


def again(e):
    """the expression written once more: its string literals are other objects"""
    return [again(x) for x in e] if isinstance(e, list) else Str(e.s) if isinstance(e, Str) else e


def leaf(r):
    return r.choice([0, 1, -1, 97, 1 << 61, -(1 << 63), (1 << 63) - 1, True, False, Q(NIL), Q(S("a")), Q(S("b")), [S("string->symbol"), Str("")], Char("a"), Char("b"), Char("\xff"),
                     Str("a"), Str("b"), Str(""), Str("ab"), Str("a\nb"), [S("string"), Char("a")], [S("string-append"), Str("a"), Str("b")], [S("void")],
                     [S("string->symbol"), Str("a")], [S("make-string"), 0], [S("list->string"), [S("list"), Char("a"), Char("b")]],
                     [S("integer->char"), 97], [S("+"), 96, 1], [S("symbol->string"), Q(S("ab"))], [S("eof")] if 0 else S("car"), S("cdr"), [S("-"), 5, 5]])


class Group:
    def __init__(self, r):
        self.r = r
        self.forms = []
        f = self.forms.append
        self.rec = r.random() < .6
        if self.rec:
            f([DEF, [S("rt")], [S("make-record-type-descriptor"), Q(S("rt")), False, False, False, False, Q(Vec([[S("mutable"), S("x")], [S("mutable"), S("y")]]))]])
            f([DEF, [S("mk")], [S("record-constructor"), S("rt")]])
            f([DEF, [S("rx")], [S("record-accessor"), S("rt"), 0]])
            f([DEF, [S("ry")], [S("record-accessor"), S("rt"), 1]])
            m = r.randrange(3)
            if m == 0:      # by both fields
                f([S("record-type-equal-procedure"), S("rt"), [LAM, [S("a"), S("b"), S("rec")], [IF, [S("rec"), [S("rx"), S("a")], [S("rx"), S("b")]], [S("rec"), [S("ry"), S("a")], [S("ry"), S("b")]], False]]])
                f([S("record-type-hash-procedure"), S("rt"), [LAM, [S("a"), S("rec")], [S("+"), [S("rec"), [S("rx"), S("a")]], [S("*"), 3, [S("rec"), [S("ry"), S("a")]]]]]])
            elif m == 1:    # the second field is ignored
                f([S("record-type-equal-procedure"), S("rt"), [LAM, [S("a"), S("b"), S("rec")], [S("rec"), [S("rx"), S("a")], [S("rx"), S("b")]]]])
                f([S("record-type-hash-procedure"), S("rt"), [LAM, [S("a"), S("rec")], [S("rec"), [S("rx"), S("a")]]]])
            else:           # through the default procedures
                f([DEF, [S("rt?")], [S("record-predicate"), S("rt")]])
                f([S("default-record-equal-procedure"), [LAM, [S("a"), S("b"), S("rec")], [IF, [S("rt?"), S("a")], [IF, [S("rt?"), S("b")], [S("rec"), [S("rx"), S("a")], [S("rx"), S("b")]], False], False]]])
                f([S("default-record-hash-procedure"), [LAM, [S("a"), S("rec")], [S("rec"), [S("rx"), S("a")]]]])
            f([DEF, [S("rt2")], [S("make-record-type-descriptor"), Q(S("rt")), False, False, False, False, Q(Vec([[S("mutable"), S("x")], [S("mutable"), S("y")]]))]])
            if m != 2:
                f([S("record-type-equal-procedure"), S("rt2"), [LAM, [S("a"), S("b"), S("rec")], True]])
                f([S("record-type-hash-procedure"), S("rt2"), [LAM, [S("a"), S("rec")], 5]])
            f([DEF, [S("mk2")], [S("record-constructor"), S("rt2")]] if m != 2 else [DEF, [S("mk2")], S("mk")])
        f([DEF, [S("cmod")], [LAM, [S("x")], [IF, [S("integer?"), S("x")], [S("modulo"), S("x"), 7], 1]]])
        self.names = []
        for i in range(r.choice([10, 20, 30])):
            n = S("v%d" % i)
            e = self.expr(r.choice([0, 1, 2, 2, 3]))
            k = r.random()
            if self.names and k < .35:      # an equal value, or the same one, or one that differs somewhere
                m, me = r.choice(self.names)
                me = again(me)
                e = me if k < .2 else m if k < .25 else self.vary(me)
            f([DEF, [n], e])
            self.names.append((n, e))
        if r.random() < .5:                 # mutation, before anything is asked
            for n, e in r.sample(self.names, 4):
                if isinstance(e, list) and e[0] == "list" and len(e) > 1:
                    f([S("set-car!"), n, leaf(r)])
                elif isinstance(e, list) and e[0] == "vector" and len(e) > 1:
                    f([S("vector-set!"), n, r.randrange(len(e) - 1), leaf(r)])
        self.ask()

    def expr(self, d):
        r = self.r
        if d == 0 or r.random() < .15:
            return leaf(r)
        sub = lambda: self.expr(d - 1)
        k = r.randrange(9 if self.rec else 7)
        if k == 0:
            return [S("list")] + [sub() for _ in range(r.randint(0, 4))]
        if k == 1:
            return [S("cons"), sub(), sub()]
        if k == 2:
            return [S("vector")] + [sub() for _ in range(r.randint(1, 4))]
        if k == 3:
            return [S("box"), sub()]
        if k == 4:
            t = r.choice(["(a b)", "(1 . 2)", "#(1 a)", "\"ab\"", "(\"a\" #\\b ())", "(a (b . #(1)) #&2)", "97", "a", "#\\a"])
            return r.choice([[S("read"), [S("open-input-string"), Str(t)]], Q(parse(t))])
        if k <= 6:
            return self.table(d)
        return [S(r.choice(["mk", "mk", "mk2"])), sub(), sub()]

    def table(self, d):
        """a hashtable from a history: the same entries can come in any order, with deleted ones in between"""
        r = self.r
        ents = [(i if r.random() < .8 else Q(S("k%d" % i)), self.expr(d - 1)) for i in range(r.randint(0, 4))]
        return self.tab(r.choice(["make-hashtable", "make-hashtable", "make-eq-hashtable", "cmod"]), ents)

    def tab(self, mk, ents):
        r = self.r
        t = S("t")
        ents = list(ents)
        r.shuffle(ents)
        ops = [[S("hashtable-set!"), t, k, v] for k, v in ents]
        if r.random() < .5:
            for j in range(r.choice([1, 3, 30])):
                ops.insert(r.randint(0, len(ops)), [S("hashtable-set!"), t, 1000 + j * 3, j])
            if r.random() < .5:
                for k, v in ents[:2]:
                    ops = [[S("hashtable-set!"), t, k, 0]] + ops
            ops += [[S("hashtable-delete!"), t, 1000 + j * 3] for j in range(30)]
        e = [LETV, [[[t], [S("make-custom-hashtable"), S("cmod"), S("equal?")] if mk == "cmod" else [S(mk)]]]] + ops + [t]
        e.append(t)
        return e

    def vary(self, e):
        """the same expression with one leaf changed, or a table rebuilt by another history"""
        r = self.r
        if not isinstance(e, list) or e[0] == QUOTE or not e[1:]:
            return leaf(r)
        if e[0] == LETV:
            ops = [x for x in e[2:] if isinstance(x, list) and x[0] == "hashtable-set!" and not (isinstance(x[2], int) and x[2] >= 1000)]
            last = {}
            for x in ops:
                last[repr(x[2])] = (x[2], x[3])
            ents = list(last.values())
            if ents and r.random() < .3:
                k, v = ents.pop(r.randrange(len(ents)))
                if r.random() < .7:
                    ents.append((k, self.vary(v)))
            mk = e[1][0][1]
            return self.tab("cmod" if len(mk) > 1 else mk[0], ents)
        if str(e[0]) in ("list", "cons", "vector", "box", "mk", "mk2"):
            e = list(e)
            i = r.randrange(1, len(e))
            e[i] = self.vary(e[i])
            if r.random() < .2 and e[0] in ("list", "vector"):
                e[0] = S("vector" if e[0] == "list" else "list")
            if r.random() < .2 and e[0] in ("list", "vector"):
                e.append(leaf(r))
            return e
        return leaf(r)

    def ask(self):
        f = self.forms.append
        ns = [n for n, _ in self.names]
        f([DEF, [S("all")], [S("list")] + ns])
        mat = lambda p: [S("map"), [LAM, [S("a")], [S("map"), [LAM, [S("b")], [p, S("a"), S("b")]], S("all")]], S("all")]
        law = lambda p, h: [S("andmap"), [LAM, [S("a")], [S("andmap"), [LAM, [S("b")], [IF, [p, S("a"), S("b")], [S("="), [h, S("a")], [h, S("b")]], True]], S("all")]], S("all")]
        f(mat(S("equal?")))
        f(law(S("equal?"), S("equal-hash")))
        f(law(S("eq?"), S("eq-hash")))
        f([DEF, [S("h1")], [S("map"), S("equal-hash"), S("all")]])
        f([DEF, [S("h2")], [S("map"), S("eq-hash"), S("all")]])
        f([S("length"), [S("map"), [LAM, [S("i")], [S("make-vector"), S("i"), [S("string->symbol"), [S("number->string"), S("i")]]]], [S("iota"), 300]]])
        f(mat(S("eq?")))
        f([S("andmap"), S("="), S("h1"), [S("map"), S("equal-hash"), S("all")]])
        f([S("andmap"), S("="), S("h2"), [S("map"), S("eq-hash"), S("all")]])
        # membership through a table finds every value under any equal key
        f([LETV, [[[S("t")], [S("make-hashtable")]]], [S("for-each"), [LAM, [S("x")], [S("hashtable-set!"), S("t"), S("x"), True]], S("all")],
           [S("andmap"), [LAM, [S("x")], [S("hashtable-contains?"), S("t"), S("x")]], S("all")]])


def parse(t):
    import rdr
    return rdr.Reader(t).read()


def main():
    ck = vp.Check("C10", RULE)
    r = ck.rng
    asan, plain = ck.server("asan"), ck.server("plain")
    try:
        for rnd in range(ck.n(2, 40)):
            progs = []
            for i in range(400):
                g = Group(r)
                w = mon.expect(g.forms, Interp10, limit=2000000)
                if w is None or w[1]:
                    ck.count("outside the model")
                    continue
                ck.count("pairs of values compared", len(g.names) ** 2)
                ck.count("equal pairs", w[0].count("#t"))
                progs.append((g.forms, w))
            srv, v = ((asan, "asan"), (plain, "plain"))[rnd % 2]
            mon.Programs(ck, srv, v, cpu=40).run(progs)
            if ck.viol:
                break
    finally:
        asan.close()
        plain.close()
    ck.finish()


if __name__ == "__main__":
    vp.main(main)
