#!/usr/bin/env python3
import _p
import random
import vp, mon, core
from sexp import *
from refeval import *
from mon import Q

RULE = ("calls of every modelled public procedure of the core with 0 to 6 arguments from a pool of values of every type "
        "(half of them aimed at the procedure's contract); result, or the exact error report (contract, range, arity, ...), "
        "is compared with the model; the remaining procedures are called with the same pool and must end cleanly; a case is one call")
S = Sym
INTS = [0, 1, 2, 3, 5, 13, 255, 256, -1, -2, (1 << 63) - 1, -(1 << 63), 1 << 32]
LST = lambda *a: [S("list")] + list(a)


class Interp4(core.FullInterp):
    anyorder = False


def rec(parent=False, sealed=False, opaque=False):
    return [S("make-record-type-descriptor"), Q(S("pt")), parent, False, sealed, opaque, Q(Vec([[S("mutable"), S("x")], [S("immutable"), S("y")]]))]


def ht(mk="make-hashtable", n=2):
    return [LETV, [[[S("t")], [S(mk)]]]] + [[S("hashtable-set!"), S("t"), i, i * i] for i in range(n)] + [S("t")]


def iport(t):
    return [S("open-input-string"), Str(t)]


def oport(t="", closed=False):
    e = [LETV, [[[S("p")], [S("open-output-string")]]]]
    if t:
        e.append([S("put-string"), S("p"), Str(t)])
    if closed:
        e.append([S("close-output-port"), S("p")])
    return e + [S("p")]


def cport():
    return [LETV, [[[S("p")], iport("ab")]], [S("close-input-port"), S("p")], S("p")]


KINDS = {
    "int": INTS, "nat": [0, 1, 2, 3, 4, 6, 20], "idx": [0, 0, 1, 1, 2, 3, 4, -1],
    "list": [Q(NIL), Q([1]), Q([1, 2, 3]), LST(Char("a"), Char("b")), Q([S("a"), S("b")]), LST(Str("s"), 1), LST(LST(1), LST(2, 3)), [S("iota"), 20],
             Q([[1, 2], [3, 4]]), LST(3, 1, 2)],
    "clist": [Q(NIL), LST(Char("a"), Char("b")), LST(Char("z"))],
    "imp": [Q(Pair(1, 2)), Q(lst([1, 2], 3)), [S("cons"), Str("a"), Char("b")]],
    "str": [Str(""), Str("a"), Str("hello"), Str("12"), Str("-7"), Str("a b\n\"q\""), Str("~a~s"), Str("~"), Str("~q"), Str("99999999999999999999"), Str("x\xe9y"),
            [S("make-string"), 3, Char("z")], Str("~a"), Str("~~~%")],
    "char": [Char("a"), Char(" "), Char("\n"), Char("\xff"), Char("0")],
    "sym": [Q(S("a")), Q(S("foo")), [S("string->symbol"), Str("x y")], Q(S("car"))],
    "vec": [[S("vector"), 1], [S("vector"), 1, 2, 3], [S("make-vector"), 4, Q(S("q"))], [S("vector"), Str("a"), Char("b"), Q([1])], Q(Vec([1, S("a")]))],
    "box": [[S("box"), 1], [S("box"), Q([1])], [S("box"), [S("box"), Str("s")]]],
    "bool": [True, False], "misc": [[S("void")], [S("datum->syntax"), 5], S("car")],
    "fn0": [[LAM, [], 5], S("void"), S("list")], "fn1": [S("add1"), S("list"), S("not"), [LAM, [S("x")], [S("cons"), S("x"), S("x")]], S("pair?"), S("box"), [LAM, S("r"), S("r")]],
    "fnn": [S("list"), S("+"), S("vector"), [LAM, [S("x"), S("y")], [S("cons"), S("y"), S("x")]], [LAM, S("r"), [S("length"), S("r")]]],
    "ht": [ht(), ht("make-eq-hashtable", 3), ht("make-hashtable", 0), ht("make-hashtable", 20)],
    "rtd": [rec(), rec(opaque=True), rec(sealed=True), rec(rec())],
    "rec": [[[S("record-constructor"), rec()], 1, 2], [[S("record-constructor"), rec(opaque=True)], 1, 2]],
    "in": [iport(""), iport("a"), iport("(1 . 2) x"), iport("#\\a \"s\" 12"), iport("(1 "), cport()],
    "out": [oport(), oport("xyz"), oport("x", True), [S("current-output-port")]],
    "stx": [[S("datum->syntax"), 5], [S("datum->syntax"), Q([1, [2, S("a")]])], [S("datum->syntax"), Q(Vec([1]))], [S("datum->syntax"), Q(lst([1, 2], 3))],
            [S("datum->syntax"), Q(NIL)]],
}
ALL = sorted(KINDS)
SIG = {
    "car": "pair", "cdr": "pair", "set-car!": "pair any", "set-cdr!": "pair any", "length": "list", "reverse": "list", "append": "list*",
    "list->vector": "list", "vector->list": "vec", "list->string": "clist", "string->list": "str", "string->symbol": "str", "symbol->string": "sym",
    "string->number": "str", "number->string": "int", "string-length": "str", "string-ref": "str idx", "string-set!": "str idx char",
    "string-append": "str*", "string": "char*", "make-string": "nat char|nat", "make-vector": "nat any|nat", "make-list": "nat any", "iota": "nat",
    "enumerate": "list", "vector-length": "vec", "vector-ref": "vec idx", "vector-set!": "vec idx any", "vector-fill!": "vec any",
    "unbox": "box", "set-box!": "box any", "char->integer": "char", "integer->char": "int", "map": "fn1 list|fnn list list", "for-each": "fn1 list|fnn list list",
    "andmap": "fn1 list|fnn list list", "ormap": "fn1 list|fnn list list", "hashtable-ref": "ht nat any|ht nat fn0|ht nat", "hashtable-set!": "ht any any",
    "hashtable-delete!": "ht nat", "hashtable-contains?": "ht nat", "hashtable-update!": "ht nat fn1 any|ht nat fn1", "hashtable-size": "ht", "hashtable-clear!": "ht",
    "hashtable-copy": "ht", "hashtable-keys": "ht", "hashtable-vals": "ht", "hashtable-entries": "ht",
    "record-type-name": "rtd", "record-type-parent": "rtd", "record-type-uid": "rtd", "record-type-sealed?": "rtd", "record-type-opaque?": "rtd",
    "record-type-field-names": "rtd", "record-type-field-mutable?": "rtd idx", "record-rtd": "rec", "record-constructor": "rtd", "record-predicate": "rtd",
    "record-accessor": "rtd idx", "record-mutator": "rtd idx", "record-type-equal-procedure": "rtd|rtd fnn", "record-type-hash-procedure": "rtd|rtd fnn", "record-writer": "rtd|rtd fnn",
    "default-record-equal-procedure": "fnn|", "default-record-hash-procedure": "fnn|",
    "read-char": "in", "peek-char": "in", "read": "in", "open-input-string": "str", "get-output-string": "out", "close-input-port": "in", "close-output-port": "out",
    "put-char": "out char", "put-string": "out str|out str idx|out str idx idx", "put-datum": "out any", "write": "any out|any", "display": "any out|any", "write-char": "char out|char",
    "newline": "out|", "flush-output-port": "out", "format": "str any*", "printf": "str any*", "fprintf": "out str any*",
    "syntax-e": "stx", "syntax->datum": "stx", "syntax->list": "stx", "datum->syntax": "any", "procedure-rename": "fn1 sym", "error": "sym str any*", "apply": "fnn list|fnn any list",
    "call-with-values": "fn0 fnn", "make-record-type-descriptor": "sym rtdf symf bool bool fields", "make-custom-hashtable": "fn1 fnn", "procedure?": "any",
}
for _n in "+ - * / = < > <= >=".split():
    SIG[_n] = "int*"
for _n in "add1 sub1 zero? remainder modulo".split():
    SIG[_n] = "int int" if _n in ("remainder", "modulo") else "int"
# (these two change the state of the process)
SKIP = {"default-record-equal-procedure", "default-record-hash-procedure", "eval"}


def anyv(r):
    return r.choice(KINDS[r.choice(ALL)])


def arg(r, k):
    if k == "any":
        return anyv(r)
    if k == "pair":
        return r.choice(KINDS["list"][1:] + KINDS["imp"])
    if k == "rtdf":
        return r.choice([False, False, rec(), rec(sealed=True), rec(rec())])
    if k == "symf":
        return r.choice([False, Q(S("uid"))])
    if k == "fields":
        m, i = S("mutable"), S("immutable")
        return Q(Vec(r.choice([[], [[m, S("a")]], [[i, S("a")], [m, S("b")]], [[m, S("a")], [i, S("a")]], [[S("foo"), S("a")]], [S("a")], [[m, 5]], [[m]], [lst([m, S("a")], 3)], [[m, S("a"), S("b")]]])))
    return r.choice(KINDS[k])


def again(e):
    return [again(x) for x in e] if isinstance(e, list) else Str(e.s) if isinstance(e, Str) else e


def args(r, name):
    return again(args_(r, name))


def args_(r, name):
    sig = SIG.get(name)
    x = r.random()
    if sig is None:
        n = len(name) - 2 if name[0] == "c" and set(name[1:-1]) <= set("ad") and name[-1] == "r" else 0
        if n and x < .6:
            t = lambda d: [S("cons"), t(d - 1) if d else 1, t(d - 1) if d else 2]
            return [t(n - 1)]
        return [anyv(r) for _ in range(1 if x < .8 else r.choice([0, 1, 2, 3]))]
    alt = r.choice(sig.split("|"))
    out = []
    for k in alt.split():
        if k.endswith("*"):
            for _ in range(r.choice([0, 1, 2, 2, 3, 4])):
                out.append(arg(r, k[:-1]))
        else:
            out.append(arg(r, k))
    if x < .55:
        return out
    if x < .85 and out:                 # one argument of another type
        out[r.randrange(len(out))] = anyv(r)
        return out
    if x < .9 and len(out) > 1:
        out.pop()
        return out
    if x < .95:
        return out + [anyv(r)]
    return [anyv(r) for _ in range(r.randint(0, 6))]


def item(r, name):
    a = args(r, name)
    call = [S(name)] + a
    k = r.random()
    if k < .15:
        call = [S("apply"), S(name), [S("list")] + a]
    elif k < .3 and a:
        vs = [S("a%d" % i) for i in range(len(a))]
        call = [[LAM, vs, [S(name)] + vs]] + a
    return [S("write"), [CWV, [LAM, [], call], S("list")]]


def main():
    ck = vp.Check("C04", RULE)
    r = ck.rng
    it = core.FullInterp()
    names = [str(n) for n, v in it.top.b.items() if isinstance(v, Prim) and n not in SKIP]
    asan, plain = ck.server("asan"), ck.server("plain")
    try:
        for rnd in range(ck.n(2, 40)):
            items = []
            for n in names:
                m = 8 if n[:1] == "c" and n[-1:] == "r" and len(n) > 4 else 40
                for _ in range(m):
                    items.append([item(r, n)])
            r.shuffle(items)
            progs = mon.pack(items, 30, Interp4)
            ck.count("procedures modelled", len(names) if rnd == 0 else 0)
            ck.count("calls", len(items))
            ck.count("calls that end in an error report", sum(1 for p in progs if p[1][1]))
            for p in progs:
                if p[1][1]:
                    ck.count("errors: " + p[1][1].kind)
            srv, v = ((asan, "asan"), (plain, "plain"))[rnd % 2]
            mon.Programs(ck, srv, v).run(progs)
            if ck.viol:
                break
        if not ck.viol:
            others(ck, r, asan)
    finally:
        asan.close()
        plain.close()
    ck.finish()


OTHERS = ("procedure-arity procedure-name procedure-arity? environment-symbols environment-ref environment-set! copy-environment environment? "
          "current-error-handler default-error-handler make-exn exn? exn-who exn-message make-argument-exn argument-exn? argument-exn-expect argument-exn-actual "
          "make-arity-exn arity-exn? arity-exn-expect arity-exn-actual make-range-exn range-exn? range-exn-value range-exn-description range-exn-lower range-exn-upper "
          "range-exn-index make-missing-exn missing-exn? missing-exn-description missing-exn-value missing-exn-key make-syntax-exn syntax-exn? syntax-exn-form "
          "syntax-exn-subform raise-argument-error raise-arity-error raise-range-error raise-missing-error raise-syntax-error errorf raise error eq-hash equal-hash "
          "record-equal-procedure record-hash-procedure fasl-read syntax-loc make-pattern-variable pattern-variable? pattern-variable-value pattern-variable-depth "
          "eval command-line version gensym environment-names string-port? current-environment eprintf hashtable-hash-proc hashtable-equiv-proc make-custom-hashtable").split()


def others(ck, r, srv):
    jobs, names = [], []
    for n in OTHERS:
        for _ in range(ck.n(16, 300)):
            a = args(r, n)
            e = [S("write"), [CWV, [LAM, [], [S(n)] + a], S("list")]]
            jobs.append(dict(mode="evalw", text=write(e) + "\n(write (car '(usable)))\n"))
            names.append(n)
    for n, j, x in zip(names, jobs, srv.run(jobs, cpu=20)):
        ck.observe(j["text"])
        ck.count("calls of unmodelled procedures")
        bad = None
        if x.crashed or x.kind != "exit" or x.code not in (0, 1):
            bad = "did not end cleanly"
        elif x.code == 1 and not x.err.strip():
            bad = "status 1 without an error report"
        elif x.code == 0 and b"usable" not in x.out and n not in ("current-error-handler", "default-error-handler"):
            bad = "the program did not go on"
        if bad:
            ck.violate("program", "(%s ...): %s: %s\nprogram: %s" % (n, bad, x.brief(), j["text"]), j["text"])


if __name__ == "__main__":
    vp.main(main)
