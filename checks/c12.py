#!/usr/bin/env python3
import _p
import random
import vp, mon, core
from sexp import *
from refeval import *
from mon import Q

RULE = ("arithmetic calls on random and boundary fixnums, 0 to 8 operands, directly, through apply, nested, and with operands "
        "from variables; number/string conversions both ways; wrong operands; a case is one program of about 40 calls")
S = Sym
OPS = ["+", "-", "*", "/", "=", "<", ">", "<=", ">="]
UN = ["add1", "sub1", "zero?", "negative?", "positive?", "non-negative?", "negative-integer?", "positive-integer?",
      "non-negative-integer?", "integer?", "number?", "fixnum?", "-", "/", "number->string"]
M = 1 << 63
EDGE = [0, 1, -1, 2, -2, 3, -3, 7, 10, 255, 256, M - 1, -M, M - 2, -M + 1, 1 << 31, -(1 << 31), (1 << 31) - 1, 1 << 32,
        (1 << 32) - 1, 1 << 62, -(1 << 62), (1 << 61) + 5, 3037000500, -3037000500, 3037000499]
OTHER = [Q(S("a")), True, False, Char("1"), Q(NIL), Q([1]), [S("string"), Char("5")], [S("vector")], [S("void")], S("car")]


def value(r):
    k = r.random()
    if k < .4:
        return r.choice(EDGE)
    if k < .6:
        return r.randint(-12, 12)
    if k < .8:
        return r.randint(-M, M - 1)
    b = r.randint(1, 62)
    return r.randint(-(1 << b), 1 << b)


def operands(r, n, cmp=False):
    xs = [value(r) for _ in range(n)]
    if cmp and n > 1:
        k = r.random()
        if k < .5:
            xs.sort(reverse=r.random() < .5)
        if k < .3:
            for i in range(1, n):
                if r.random() < .4:
                    xs[i] = xs[i - 1]
    return xs


def call(r, f, xs):
    """one of several ways to make the same call"""
    k = r.random()
    if k < .4:
        return [f] + xs
    if k < .6:
        j = r.randint(0, len(xs))
        return [S("apply"), f] + xs[:j] + [[S("list")] + xs[j:]]
    vs = [S("v%d" % i) for i in range(len(xs))]
    if k < .8:
        return [[LAM, vs, [f] + vs]] + xs
    return [LETV, [[[v], x] for v, x in zip(vs, xs)], [f] + vs]


def item(r):
    k = r.random()
    if k < .45:
        f = r.choice(OPS)
        n = r.choice([1, 2, 2, 2, 2, 3, 3, 4, 5, 8]) if f in "-/=<=>=" else r.choice([0, 1, 2, 2, 2, 3, 4, 8])
        return call(r, S(f), operands(r, n, f in ("=", "<", ">", "<=", ">=")))
    if k < .6:
        return call(r, S(r.choice(["remainder", "modulo", "/", "remainder", "modulo"])), operands(r, 2))
    if k < .75:
        return call(r, S(r.choice(UN)), operands(r, 1))
    if k < .82:
        # nested
        return [S(r.choice("+-*")), item(r), item(r)] if r.random() < .5 else [S("list"), item(r), item(r)]
    if k < .9:
        x = value(r)
        return [S("equal?"), x, [S("string->number"), [S("number->string"), x]]]
    if k < .97:
        x = value(r)
        s = str(x)
        m = r.random()
        if m < .4:
            s = "".join(r.choice("0123456789+-x ae.") for _ in range(r.randint(0, 5)))
        elif m < .6:
            s = str(x * r.randint(1, 40))
        elif m < .7 and x >= 0:
            s = "+" + s
        elif m < .8:
            s = s[:1] + "0" * r.randint(0, 3) + s[1:] if x >= 0 else s
        elif m < .9:
            i = r.randint(0, len(s))
            s = s[:i] + r.choice("-+ a0") + s[i:]
        return [S("string->number"), Str(s)]
    # distributive, inverse laws stated in the language itself
    a, b, c = value(r), value(r), value(r)
    if b == 0:
        b = 5
    return r.choice([
        [S("="), [S("*"), a, [S("+"), b, c]], [S("+"), [S("*"), a, b], [S("*"), a, c]]],
        [S("="), a, [S("+"), [S("*"), b, [S("/"), a, b]], [S("remainder"), a, b]]],
        [S("="), a, [S("-"), [S("+"), a, b], b]],
        [S("list"), [S("<"), a, b], [S(">"), b, a], [S("not"), [S(">="), a, b]]],
    ])


def bad(r):
    f = r.choice(OPS + ["remainder", "modulo", "add1", "sub1", "zero?", "number->string", "/", "modulo", "remainder"])
    n = 1 if f in ("add1", "sub1", "zero?", "number->string") else 2 if f in ("remainder", "modulo") else r.randint(1, 5)
    xs = operands(r, n, True)
    xs[r.randrange(n)] = r.choice(OTHER) if f not in ("/", "remainder", "modulo") or r.random() < .3 else 0
    return [S(f)] + xs


def main():
    ck = vp.Check("C12", RULE)
    r = ck.rng
    asan, plain = ck.server("asan"), ck.server("plain")
    try:
        for rnd in range(ck.n(2, 60)):
            items = [[item(r)] for _ in range(9000)]
            for i in range(0, 1200):
                items.insert(r.randrange(len(items)), [bad(r)])
            # division by zero in the middle of a fold, -M / -1 and friends appear through EDGE
            progs = mon.pack(items, 40)
            ck.count("calls", len(items))
            srv, v = ((asan, "asan"), (plain, "plain"))[rnd % 2]
            mon.Programs(ck, srv, v).run(progs)
            if ck.viol:
                break
    finally:
        asan.close()
        plain.close()
    ck.finish()


if __name__ == "__main__":
    vp.main(main)
