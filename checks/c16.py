#!/usr/bin/env python3
import _p
import os, random, re, subprocess
import vp, mon, core, libm
from core import Rec, Rtd, contract
from sexp import *
from refeval import *
from mon import Q

RULE = ("random programs that raise errors of every kind at random places (operands, bindings, callbacks, deep recursions, loops), under the default handler and under handlers that "
        "log, resume, switch to other handlers, delegate to earlier ones or exit; conditions built by hand and taken apart; the same through modules, loaded files, the REPL and the "
        "program itself; output, report, number of handler calls and status compared with a model; a case is one program")
S = Sym
CKINDS = ("arity", "notproc", "unbound", "closed", "read", "setundef")


class ExitEx(Exception):
    def __init__(self, n):
        self.n = n


class Final(Exception):
    """the default handler reported x"""
    def __init__(self, pat):
        self.pat = pat


class Unk:
    """a part of a condition that is not specified"""
    def written(self):
        raise Skip()


EXN = Rtd("&exn", None, False, False, True, ["who", "message"])
KINDS = {
    "argument": Rtd("&argument-exn", EXN, False, True, True, ["expect", "actual"]),
    "arity": Rtd("&arity-exn", EXN, False, True, True, ["expect", "actual"]),
    "range": Rtd("&range-exn", EXN, False, True, True, ["value", "description", "lower", "upper", "index"]),
    "missing": Rtd("&missing-exn", EXN, False, True, True, ["description", "value", "key"]),
    "syntax": Rtd("&syntax-exn", EXN, False, True, True, ["form", "subform"]),
}


def isnat(x):
    return isinstance(x, int) and not isinstance(x, bool) and x >= 0


def arityp(x):
    if x is NIL or isnat(x):
        return True
    p = -1
    while isinstance(x, Pair):
        if not isnat(x.a) or x.a <= p:
            return False
        p = x.a
        x = x.d
    return x is NIL or x is False


def uncopy(x):
    return x.e if isinstance(x, core.Stx) else x


def cpat(x):
    return "[^\n]*" + core.err_pattern(x)


class ErrInterp(core.FullInterp):
    def __init__(self):
        core.FullInterp.__init__(self)
        T = self.top.b
        self.default = Prim("default-error-handler", self.dflt, 1, 1)
        self.handler = self.default
        self.calls = 0
        self.kinds = {}
        self.handling = 0

        def defp(name, fn, lo, hi=-1):
            T[S(name)] = Prim(name, fn, lo, lo if hi == -1 else hi)

        def handler(*h):
            if not h:
                return self.handler
            if not isinstance(h[0], (Prim, Closure)):
                contract("current-error-handler", "procedure?", h[0])
            self.handler = h[0]
            return VOID
        defp("current-error-handler", handler, 0, 1)

        def exit_(n=0):
            if not isnat(n) or n > 255:
                contract("exit", "an integer between 0 and 255", n)
            raise ExitEx(n)
        defp("exit", exit_, 0, 1)
        T[S("&exn")] = EXN

        def ctor(t):
            return lambda *a: Rec(t, list(a))

        def acc(t, i):
            def f(x):
                if not (isinstance(x, Rec) and x.rtd.isa(t)):
                    contract(Unk(), t.name, x)
                return x.vals[i]
            return f
        defp("make-exn", ctor(EXN), 2)
        defp("exn?", lambda x: isinstance(x, Rec) and x.rtd.isa(EXN), 1)
        defp("exn-who", acc(EXN, 0), 1)
        defp("exn-message", acc(EXN, 1), 1)
        for k, t in KINDS.items():
            T[S("&" + k)] = t
            n = 2 + len(t.fields)
            defp("make-%s-exn" % k, ctor(t), n)
            defp("%s-exn?" % k, (lambda t: lambda x: isinstance(x, Rec) and x.rtd.isa(t))(t), 1)
            for i, f in enumerate(t.fields):
                defp("%s-exn-%s" % (k, f), acc(t, i + 2), 1)

        def who_ok(w, x, strs=False):
            if not (x is False or isinstance(x, Sym)):
                contract(w, "symbol? or #f", x)

        def typ(w, p, exp, x):
            if not p:
                contract(w, exp, x)

        def errorf(who, fmt, *a):
            who_ok("errorf", who)
            typ("errorf", isinstance(fmt, Str), "string?", fmt)
            t = T[S("format")].fn(fmt, *a)
            raise MErr("user", who, t)
        defp("errorf", errorf, 2, None)

        def rarg(who, exp, v):
            who_ok("raise-argument-error", who)
            typ("raise-argument-error", isinstance(exp, Str), "string?", exp)
            raise MErr("rec", Rec(KINDS["argument"], [who, Str("contract violation"), exp, v]))
        defp("raise-argument-error", rarg, 3)

        def rarity(who, ar, n):
            who_ok("raise-arity-error", who)
            typ("raise-arity-error", arityp(ar), "procedure-arity?", ar)
            raise MErr("rec", Rec(KINDS["arity"], [who, Str("arity mismatch"), ar, n]))
        defp("raise-arity-error", rarity, 3)

        def rrange(who, v, d, lo, hi, i):
            w = "raise-range-error"
            who_ok(w, who)
            typ(w, isinstance(d, Str), "string?", d)
            for x in (lo, hi, i):
                typ(w, core.isint(x), "integer?", x)
            raise MErr("rec", Rec(KINDS["range"], [who, Str(d.s + " index out of bounds" if d.s else "index out of bounds"), v, d, lo, hi, i]))
        defp("raise-range-error", rrange, 6)

        def rmiss(who, d, x, k):
            who_ok("raise-missing-error", who)
            typ("raise-missing-error", isinstance(d, Str), "string?", d)
            raise MErr("rec", Rec(KINDS["missing"], [who, Str(d.s + " not found"), d, x, k]))
        defp("raise-missing-error", rmiss, 4)

        def rsyn(who, msg, stx=False, sub=False):
            if not (who is False or isinstance(who, Sym)) or not isinstance(msg, Str) or any(not (x is False or isinstance(x, core.Stx)) for x in (stx, sub)):
                raise Skip()
            dat = T[S("syntax->datum")].fn
            raise MErr("rec", Rec(KINDS["syntax"], [who, msg, dat(stx) if stx is not False else False, dat(sub) if sub is not False else False]))
        defp("raise-syntax-error", rsyn, 2, 4)

    # the condition object of an error
    def condition(self, x):
        k, d = x.kind, x.detail
        if k == "uncaught":
            return d[0]
        if k == "rec":
            return d[0]
        sym = lambda w: S(w) if isinstance(w, str) and not isinstance(w, Sym) else w
        if k == "contract" and d:
            return Rec(KINDS["argument"], [sym(d[0]), Str("contract violation"), Str(d[1]) if d[1] is not None else Unk(), d[2]])
        if k == "range" and d:
            who, descr, lo, hi, idx, val = d
            return Rec(KINDS["range"], [sym(who), Str((descr + " " if descr else "") + "index out of bounds"), val, Str(descr), lo, hi, idx])
        if k == "missing" and d:
            return Rec(KINDS["missing"], [sym(d[0]), Str("%s not found" % d[1]), Str(d[1]), d[3], d[2]])
        if k == "user":
            who, msg, *irr = d
            m = msg.s
            if len(irr) == 1:
                m += "\n  argument: " + self.wr(irr[0], False)
            elif irr:
                m += "\n  arguments...:" + "".join("\n   " + self.wr(v, False) for v in irr)
            return Rec(EXN, [who, Str(m)])
        if k in CKINDS:
            e = Rec(EXN, [Unk(), Unk()])
            e.err = x
            return e
        raise Skip()

    # what the default handler prints
    def report(self, x):
        q = re.escape
        D = lambda v: q(self.wr(v, True))
        if not (isinstance(x, Rec) and x.rtd.isa(EXN)):
            return "uncaught exception: %s\n$" % D(x)
        v = x.vals
        if getattr(x, "err", None):
            return cpat(x.err)
        w = "[^\n]*" if isinstance(v[0], Unk) else D(v[0]) if v[0] is not False else "error"
        s = "%s: %s\n" % (w, D(v[1]))
        t = x.rtd.name
        for k, r in KINDS.items():
            if x.rtd.isa(r):
                t = k
        if t == "argument":
            s += "  expected: %s\n  given: %s\n" % ("[^\n]*" if isinstance(v[2], Unk) else D(v[2]), D(v[3]))
        elif t == "arity":
            a = v[2]
            if a is NIL or not isinstance(a, Pair):
                e = D(a)
                if not (a is NIL or core.isint(a)):
                    raise Skip()
            else:
                xs, tl = unlist(a)
                if tl is False:
                    e = ", ".join([D(y) for y in xs[:-1]] + ["at least " + D(xs[-1])])
                elif tl is NIL:
                    e = ", ".join(D(y) for y in xs)
                else:
                    raise Skip()
            s += "  expected: %s\n  given: %s\n" % (e, D(v[3]))
        elif t == "range":
            val, descr, lo, hi, i = v[2:]
            if not isinstance(descr, Str):
                raise Skip()
            s += "  range: \\[%s, %s\\)\n  %sindex: %s\n  in: %s\n" % (D(lo), D(hi), q(descr.s + " ") if descr.s else "", D(i), D(val))
        elif t == "missing":
            s += "  %s: %s\n  in: %s\n" % (D(v[2]), D(v[4]), D(v[3]))
        elif t == "syntax":
            s += "".join("  %s: %s\n" % (n, D(y)) for n, y in (("in", v[2]), ("at", v[3])) if y is not False)
        return s + "$"

    def dflt(self, x):
        raise Final(self.report(x))

    def handle(self, x):
        """an error raised by a primitive or by raise: its value is what the handler returns"""
        self.kinds[x.kind] = self.kinds.get(x.kind, 0) + 1
        if self.handler is not self.default:
            self.calls += 1
        if x.kind not in ("contract", "range", "missing", "user", "uncaught", "rec"):
            if self.handler is self.default:
                raise Final(cpat(x))
            if x.kind == "unbound":
                raise Skip()
            self.force(self.handler, [self.condition(x)])
            raise Skip()            # where the program resumes is not specified
        self.handling += 1
        if self.handling > 60:
            raise Skip()            # a handler that fails for ever
        r = self.force(self.handler, [self.condition(x)])
        self.handling -= 1
        return r

    def force(self, f, args):
        while True:
            if isinstance(f, Prim):
                if len(args) < f.lo or (f.hi is not None and len(args) > f.hi):
                    return self.handle(MErr("arity"))
                self.tick()
                try:
                    r = f.fn(*args)
                except MErr as x:
                    return self.handle(x)
                if isinstance(r, Tail):
                    f, args = r.f, r.args
                    continue
                return r
            if not isinstance(f, Closure):
                return self.handle(MErr("notproc"))
            try:
                body, env = self.enter(f, args)
                r = self.ev(body, env, True)
            except MErr as x:
                return self.handle(x)
            if isinstance(r, Tail):
                f, args = r.f, r.args
                continue
            return r

    def run16(self, forms):
        """-> (output, status, pattern of the error output)"""
        try:
            for f in forms:
                try:
                    v = self.ev(f, self.top)
                except MErr as x:
                    if self.handler is not self.default:
                        raise Skip()
                    raise Final(cpat(x) if x.kind in CKINDS else self.report(self.condition(x)))
                if isinstance(v, MV):
                    raise Skip()
                self.out.append(write(v) + "\n")
        except Final as x:
            return "".join(self.out), 1, x.pat
        except ExitEx as x:
            return "".join(self.out), x.n, "$"
        self.out.append("#<end>\n")
        return "".join(self.out), 0, "$"


def P(text):
    """forms written as text"""
    import rdr
    out = []

    def conv(x):
        if isinstance(x, Pair):
            xs, t = unlist(x)
            if xs and xs[0] == "quote" and len(xs) == 2 and t is NIL:
                return [QUOTE, xs[1]]
            if t is not NIL:
                return Dot([conv(y) for y in xs], t) if "Dot" in globals() else x
            return [conv(y) for y in xs]
        if x is NIL:
            return []
        return x
    rd = rdr.Reader(text)
    while True:
        v = rd.read()
        if v is EOF:
            return out
        out.append(conv(v))


DESCRIBE = """
(define-values (calls) 0)
(define-values (dflt) (current-error-handler))
(define-values (parts) (lambda (x)
  (if (argument-exn? x) (list (argument-exn-expect x) (argument-exn-actual x))
   (if (arity-exn? x) (list (arity-exn-expect x) (arity-exn-actual x))
    (if (range-exn? x) (list (range-exn-value x) (range-exn-description x) (range-exn-lower x) (range-exn-upper x) (range-exn-index x))
     (if (missing-exn? x) (list (missing-exn-description x) (missing-exn-value x) (missing-exn-key x))
      (if (syntax-exn? x) (list (syntax-exn-form x) (syntax-exn-subform x)) (list))))))))
(define-values (describe) (lambda (x) (begin (set! calls (+ calls 1))
  (write (if (exn? x) (list calls (argument-exn? x) (arity-exn? x) (range-exn? x) (missing-exn? x) (syntax-exn? x) (exn-who x) (exn-message x) (parts x)) (list calls x))) (newline))))
(define-values (brief) (lambda (x) (begin (set! calls (+ calls 1)) (write (list calls (exn? x))) (newline))))
(define-values (run) (lambda (thunk) (list (thunk))))
(define-values (deep) (lambda (n thunk) (if (= n 0) (thunk) (cons n (deep (- n 1) thunk)))))
(define-values (times) (lambda (n thunk) (letrec-values ([(go) (lambda (i acc) (if (= i n) acc (go (+ i 1) (cons (thunk) acc))))]) (go 0 (list)))))
(define-values (with-handler) (lambda (h thunk) (let-values ([(old) (current-error-handler)]) (begin (current-error-handler h)
   (let-values ([(v) (thunk)]) (begin (current-error-handler old) v))))))
(define-values (tbl) (make-eq-hashtable))
"""
NDESC = 10


class G16:
    def __init__(self, r):
        self.r = r
        self.my = False

    def val(self):
        r = self.r
        return r.choice([r.randrange(100), Q(S(r.choice("xyz"))), Str(r.choice(["", "s", "a\nb"])), Q([1, S("z"), Str("q")]), False, True, Char("c"), Q(Vec([1, Str("v")])), [S("list"), 1, Str("t")], Q([])])

    def who(self):
        return self.r.choice([Q(S("who")), Q(S("f")), False, Str("in f")])

    def whos(self):
        return self.r.choice([Q(S("who")), Q(S("f")), False])

    def bad(self):
        """an expression that raises"""
        r = self.r
        k = r.randrange(17)
        v = self.val
        if k == 0:
            return [S(r.choice(["car", "cdr"])), r.choice([5, Q([]), Q(S("p")), Str("s")])]
        if k == 1:
            n = r.randrange(4)
            return [S("vector-ref"), Q(Vec(list(range(n)))), n + r.randrange(3)]
        if k == 2:
            s = r.choice(["", "abc"])
            return [S("string-ref"), Str(s), len(s) + r.randrange(2)]
        if k == 3:
            return [S(r.choice(["+", "-", "*"])), r.randrange(9), r.choice([Q(S("a")), Str("1"), False])]
        if k == 4:
            return [S("hashtable-ref"), S("tbl"), Q(S("k%d" % r.randrange(5)))]
        if k in (5, 6):
            return [S("error"), self.who(), Str(r.choice(["bad", "it is bad", "", "two\nlines", "with: colon"]))] + [v() for _ in range(r.choice([0, 0, 1, 2, 3]))]
        if k == 7:
            return [S("raise"), v()]
        if k == 8:
            f = r.choice([("v", 0), ("~a v", 1), ("~s and ~a", 2), ("~~", 0)])
            return [S("errorf"), self.whos(), Str(f[0])] + [v() for _ in range(f[1])]
        if k == 9:
            return [S("raise-argument-error"), self.whos(), Str(r.choice(["pair?", "a thing"])), v()]
        if k == 10:
            return [S("raise-arity-error"), self.whos(), r.choice([0, 2, Q([]), Q([1]), Q([1, 2, 5]), Q(lst([1], False)), Q(lst([0, 2, 3], False)), Q([2, 1]), Q([1, S("x")]), -1]), r.randrange(6)]
        if k == 11:
            return [S("raise-range-error"), self.whos(), v(), Str(r.choice(["", "start", "the end"])), r.randrange(3), r.randrange(9), r.choice([9, -1, 77])]
        if k == 12:
            return [S("raise-missing-error"), self.whos(), Str(r.choice(["key", "name"])), v(), v()]
        if k == 13:
            return [S("raise-syntax-error"), self.whos(), Str("bad form")] + r.choice([[], [[S("datum->syntax"), v()]], [False, [S("datum->syntax"), v()]], [[S("datum->syntax"), v()], [S("datum->syntax"), Q(S("sub"))]]])
        if k == 14:
            c = r.choice(["argument", "arity", "range", "missing", "syntax"])
            if c == "arity":
                return [S("raise"), [S("make-arity-exn"), self.who(), Str("m"), r.choice([1, Q([1, 2])]), v()]]
            if c == "range":
                return [S("raise"), [S("make-range-exn"), self.who(), Str("m"), v(), Str(r.choice(["", "d"])), 0, 1, v()]]
            return [S("raise"), [S("make-%s-exn" % c), self.who(), Str("m")] + [v() for _ in KINDS[c].fields]]
        if k == 15:
            return [S("raise"), [S("make-exn"), v(), v()]] if not self.my or r.random() < .5 else [S("raise"), [S("make-my"), self.who(), Str("mine"), v()]]
        return r.choice([[S("error"), v(), v()], [S("errorf"), v(), v()], [S("exit"), r.choice([Q(S("x")), -1, 256, 1000])], [S("current-error-handler"), v()],
                         [S("string-append"), Str("a"), 5], [S("symbol->string"), 5], [S("char->integer"), 5], [S("integer->char"), 256], [S("length"), Q(lst([1], 2))]])

    def e(self, d):
        r = self.r
        if d <= 0:
            return self.bad() if r.random() < .3 else self.val()
        sub = lambda: self.e(d - 1)
        k = r.randrange(17)
        if k < 2:
            return [S("list")] + [sub() for _ in range(r.choice([1, 2, 3]))]
        if k == 2:
            return [LETV, [[[S("a")], sub()], [[S("b")], sub()]], [S("list"), S("b"), S("a"), sub()]]
        if k == 3:
            return [[LAM, [S("p"), S("q")], [S("cons"), S("p"), S("q")]], sub(), sub()]
        if k == 4:
            return [IF, sub(), sub(), sub()]
        if k == 5:
            return [BEGIN, [S("display"), sub()], [S("newline")], sub()]
        if k == 6:
            return [S("map"), [LAM, [S("u")], [S("list"), S("u"), sub()]], Q([1, 2, 3][:r.randint(1, 3)])]
        if k == 7:
            return [S("deep"), r.choice([0, 3, 40]), [LAM, [], [S("list"), sub()]]]
        if k == 8:
            return [S("times"), r.choice([1, 2, 5]), [LAM, [], sub()]]
        if k == 9:
            return [S("with-handler"), self.handler(), [LAM, [], sub()]]
        if k == 10:
            return [CWV, [LAM, [], [VALUES, sub(), sub()]], S("list")]
        if k == 11:
            return [APPLY, S("list"), [S("list"), sub(), sub()]]
        if k == 12:
            return [EVAL, Q(sub())]
        if k == 13:
            return self.bad()
        if k == 14:
            return [S("error"), self.whos(), Str("m"), sub()]
        if k == 15:
            return [S("raise"), sub()]
        return [S("vector"), sub(), self.bad(), sub()]

    def handler(self):
        r = self.r
        x = S("x")
        log = [S("describe"), x] if r.random() < .9 else [S("brief"), x]
        k = r.randrange(13)
        if k < 5:
            return [LAM, [x], [BEGIN, log, r.choice([self.val(), [S("list"), Q(S("resumed")), S("calls")], x if r.random() < .2 else False, S("calls")])]]
        if k == 5:
            return [LAM, [x], [BEGIN, log, [S("exit"), r.choice([0, 1, 2, 7, 127, 128, 255])]]]
        if k == 6:
            return [LAM, [x], [BEGIN, log, [S("current-error-handler"), S("dflt")], [S("raise"), x]]]
        if k == 7:
            return [LAM, [x], [BEGIN, log, [S("dflt"), x]]]
        if k == 8:
            return [LAM, [x], [BEGIN, [S("current-error-handler"), [LAM, [S("y")], [BEGIN, [S("describe"), S("y")], Q(S("second"))]]], log, self.bad()]]
        if k == 9:
            # one that takes itself out for the time it runs
            return [LAM, [x], [S("with-handler"), [LAM, [S("y")], [BEGIN, [S("describe"), S("y")], Q(S("inner"))]], [LAM, [], [S("list"), self.bad(), [BEGIN, log, S("calls")]]]]]
        if k == 10:
            return [LAM, [x], [IF, [S(r.choice(["exn?", "argument-exn?", "range-exn?", "missing-exn?"])), x], [BEGIN, log, Q(S("known"))], [BEGIN, log, [S("list"), Q(S("unknown"))]]]]
        if k == 11:
            return [LAM, [x], [BEGIN, log, [IF, [S("<"), S("calls"), r.choice([2, 4, 8])], S("calls"), [S("exit"), r.choice([3, 9])]]]]
        return [S("dflt")][0]

    def cerr(self):
        """an error of the evaluator"""
        r = self.r
        return r.choice([[S("car")], [S("run"), 1, 2], [[LAM, [S("x")], S("x")]], [5, 6], [Str("f")], [S("cons"), 1, 2, 3], [S("zork"), 1], S("zork"), [S("list"), S("zork")],
                         [S("read-char"), S("closed")], [S("read"), [S("open-input-string"), Str(")")]], [S("map"), [LAM, [], 1], Q([1])],
                         [[LAM, [S("f")], [S("f"), 1]], Q(S("notproc"))]])

    def program(self):
        r = self.r
        forms = []
        if r.random() < .2:
            self.my = True
            forms += [[DEF, [S("&my")], [S("make-record-type-descriptor"), Q(S("my")), S("&exn"), False, False, False, Q(Vec([[S("immutable"), S("extra")]]))]],
                      [DEF, [S("make-my")], [S("record-constructor"), S("&my")]]]
        if r.random() < .15:
            forms += [[DEF, [S("closed")], [S("open-input-string"), Str("abc")]], [S("close-input-port"), S("closed")]]
        k = r.random()
        if k < .75:
            forms.append([S("current-error-handler"), self.handler()])
        n = r.choice([2, 4, 8])
        for i in range(n):
            forms.append([S("run"), [LAM, [], self.e(r.choice([1, 2, 3]))]])
            if r.random() < .15:
                forms.append([S("current-error-handler"), self.handler()])
            if r.random() < .3:
                forms.append(S("calls"))
            if r.random() < .2:
                forms.append([BEGIN, [S("display"), Str("step %d" % i)], [S("newline")]])
        if r.random() < .25:
            if r.random() < .7:
                forms.append([S("current-error-handler"), r.choice([S("dflt"), [LAM, [S("x")], [BEGIN, [S("brief"), S("x")], [S("exit"), 5]]]])])
            forms.append([S("run"), [LAM, [], self.wrap(self.cerr())]])
        elif r.random() < .3:
            forms.append(r.choice([[S("exit"), r.randrange(60)], [S("exit")], [S("list"), 1, [S("exit"), 0]], [S("run"), [LAM, [], [S("cons"), 1, [S("exit"), 44]]]]]))
        if r.random() < .5:
            forms.append([S("display"), Str("the end")])
            forms.append(S("calls"))
        return forms

    def wrap(self, e):
        r = self.r
        for _ in range(r.randrange(3)):
            e = r.choice([[S("list"), 1, e], [S("map"), [LAM, [S("u")], e], Q([1, 2])], [LETV, [[[S("a")], e]], S("a")], [S("deep"), 5, [LAM, [], e]]])
        return e


def expect(forms):
    it = ErrInterp()
    it.limit = 300000
    try:
        return it.run16(forms), it
    except (TooLong, Skip, RecursionError):
        return None


def judge(w, r):
    out, code, pat = w
    if r.crashed:
        return "abnormal end: " + r.crashed
    if r.kind != "exit":
        return "did not finish: " + r.kind
    got, o = mon.norm(r.out), mon.norm(out.encode("latin1"))
    if got != o:
        n = next((i for i, (a, b) in enumerate(zip(got, o)) if a != b), min(len(got), len(o)))
        return "output differs at byte %d (line %d): expected ...%r, observed ...%r" % (n, got[:n].count(b"\n"), o[max(0, n - 60):n + 120], got[max(0, n - 60):n + 120])
    if r.code != code:
        return "expected status %d, observed %d" % (code, r.code)
    e = mon.norm(r.err).decode("latin1")
    if pat == "$":
        return "error output %r where none is expected" % e[:300] if e else None
    pat = pat.replace("\\#<procedure>", "#<procedure>")
    m = re.match(pat, e, re.S)
    if not m:
        return "error report %r does not match %r" % (e, pat)
    if pat[-1] != "$":
        # one report only
        if len(re.findall(r"(?m)^(?:Error|[^\s:]+: )", e)) != 1:
            return "more than one report: %r" % e
    return None


def run_batch(ck, srv, v, progs):
    texts = ["\n".join(write(f) for f in p[0]) for p in progs]
    rs = srv.run([dict(mode="evalw", text=t) for t in texts], cpu=20)
    for i, ((f, w), t, x) in enumerate(zip(progs, texts, rs)):
        ck.observe(t)
        ck.count("programs on " + v)
        b = judge(w, x)
        if b:
            ck.violate("program", "%s build: %s\nprogram:\n%s\nexpected output:\n%s(status %d, report %r)\nobserved: %s" % (
                v, b, t[-6000:], w[0][-2500:], w[1], w[2], x.brief()), t)
        elif i % max(1, len(progs) // 6) == 0:
            ck.sample(t[-500:])


# ---- the same through every way of running a program

def outer(r, d, tag):
    """files of a program with several parts, of which one may end it -> (files, out, code, err pattern)"""
    n = r.choice([1, 2, 3, 4])
    stop = r.randrange(n) if r.random() < .8 else None
    files, out = {}, []
    code, pat = 0, "$"
    how = None
    for i in range(n):
        nxt = "%s_%d.min" % (tag, i + 1) if i + 1 < n else None
        pre, post = "before %d" % i, "after %d" % i
        act = ""
        if stop == i:
            how = r.choice(ENDS)
            act = how[0]
        files["%s_%d.min" % (tag, i)] = (nxt, pre, act, post)
    return n, stop, how, files


ENDS = [('(error \'w "message" 1 "two")', 1, 'w: message\n  arguments\\.\\.\\.:\n   1\n   "two"\n$'),
        ('(car 5)', 1, 'car: contract violation\n  expected: pair\\?\n  given: 5\n$'),
        ('(raise (list 1 2))', 1, 'uncaught exception: \\(1 2\\)\n$'),
        ('(vector-ref (vector 1 2) 2)', 1, 'vector-ref: index out of bounds\n  range: \\[0, 2\\)\n  index: 2\n  in: #\\(1 2\\)\n$'),
        ('(exit 3)', 3, '$'), ('(exit)', 0, '$'), ('(exit 255)', 255, '$'),
        ('(cons 1 (exit 4))', 4, '$'),
        ('((lambda (x) x))', 1, "[^\n]*arity mismatch"),
        ('(5 5)', 1, "[^\n]*expected procedure"),
        ('(current-error-handler (lambda (x) (begin (display "handled") (newline) (exit 9)))) (list (cdr 7))', 9, "$"),
        ('(current-error-handler (lambda (x) (begin (display "handled") (newline) 5))) (display (list (cdr 7) (raise 2))) (newline)', None, "$")]


def program_files(r, kind, tag):
    n, stop, how, parts = outer(r, None, tag)
    files, out, code, pat = {}, [], 0, "$"
    order = list(range(n))
    for i in order:
        nxt, pre, act, post = parts["%s_%d.min" % (tag, i)]
        t = ""
        if kind == "module":
            t += "(import %s)\n" % " ".join(['"@BASE@"'] + (['"%s"' % nxt] if nxt else []))
            t += "(define unused%d 1)\n(export unused%d)\n" % (i, i)
        t += '(display "%s") (newline)\n' % pre
        if kind == "load" and nxt:
            t += '(load "%s")\n' % nxt
        t += act + "\n"
        t += '(display "%s") (newline)\n' % post
        files["%s_%d.min" % (tag, i)] = t
    # what is printed
    done = []

    def go(i):
        nxt = i + 1 < n
        if kind == "module" and nxt:
            if not go(i + 1):
                return False
        done.append("before %d" % i)
        if kind == "load" and nxt:
            if not go(i + 1):
                return False
        if stop == i:
            if "handled" in how[0]:
                done.append("handled")
            if how[1] is None:
                done.extend(["handled", "(5 5)"])
            else:
                return False
        done.append("after %d" % i)
        return True
    if not go(0):
        code, pat = how[1], how[2]
    return files, "".join(x + "\n" for x in done), code, pat


def cli(ck, r, n):
    out = vp.build("plain")
    exe = os.path.join(out, "minim")
    d = os.path.join(ck.scratch, "cli")
    os.makedirs(d, exist_ok=True)
    for k in range(n):
        kind = "load"
        files, want, code, pat = program_files(r, kind, "c%d" % k)
        for p, t in files.items():
            open(os.path.join(d, p), "w").write(t)
        first = "c%d_0.min" % k
        how = r.choice(["file", "file", "repl"])
        if how == "file":
            cmd, inp = [exe, "-q", "--no-libs", first], b""
        else:
            cmd, inp = [exe, "-q", "--no-libs", "-i"], files[first].encode() + b"\n"
        p = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, timeout=60)
        o = p.stdout.decode("latin1")
        if how == "repl":
            # the prompt, and the values of forms that are not void
            o = o.replace("> ", "")
        ck.observe((how, tuple(files.items())))
        ck.count("runs of the program itself: " + how)
        e = p.stderr.decode("latin1")
        if o != want or p.returncode != code or not re.match(pat, e, re.S) or (pat == "$" and e):
            ck.violate("cli", "%s %s\nexpected output %r, status %d, report %r\nobserved output %r, status %d, error output %r" % (
                " ".join(cmd), files, want, code, pat, p.stdout, p.returncode, e), repr(files))


def main():
    ck = vp.Check("C16", RULE)
    r = ck.rng
    n = ck.n(1600, 12000)
    servers = [("asan", ck.server("asan")), ("plain", ck.server("plain"))]
    prelude = P(DESCRIBE)

    def make(k):
        out = []
        for _ in range(k):
            forms = prelude + G16(r).program()
            w = expect(forms)
            if w is None:
                ck.count("programs outside of the model")
                continue
            w, it = w
            ck.count("handler calls", it.calls)
            for kk, c in it.kinds.items():
                ck.count("errors: " + kk, c)
            ck.count("status %s" % (w[1] if w[1] < 2 else "from exit"))
            out.append((forms, w))
        return out
    try:
        for base in range(0, n, 800):
            ps = big_stack(lambda: make(min(800, n - base)))
            for i, (v, s) in enumerate(servers):
                run_batch(ck, s, v, ps if ck.thorough else ps[i::2])
            if len(ck.viol) > 5:
                break
        # many errors, and errors at depth
        v, s = servers[1]
        dp = []
        for m in (10, 1000, 20000):
            t = DESCRIBE + ("(current-error-handler (lambda (x) (begin (set! calls (+ calls 1)) (exn-message x))))\n"
                            "(length (times %d (lambda () (list (car 5)))))\ncalls\n(length (deep %d (lambda () (list (error 'a \"b\")))))\ncalls\n" % (m, m))
            dp.append((t, "%d\n%d\n%d\n%d\n" % (m, m, m + 1, m + 1)))
        for (t, w), x in zip(dp, s.run([dict(mode="evalw", text=t) for t, _ in dp], cpu=60)):
            ck.observe(t)
            ck.count("bulk errors")
            if x.kind != "exit" or x.code or not x.out.decode().endswith("#<void>\n" + w + "#<end>\n"):
                ck.violate("bulk", "many handled errors\nprogram:\n%s\nexpected ...%r\nobserved %s" % (t, w, x.brief()), t)
    finally:
        for _, s in servers:
            s.close()
    cli(ck, r, ck.n(60, 500))
    # modules
    srv = ck.library()
    try:
        jobs, wants = [], []
        for k in range(ck.n(60, 600)):
            files, want, code, pat = program_files(r, "module", "m%d" % k)
            for p, t in files.items():
                open(os.path.join(srv.dir, p), "w").write(t.replace("@BASE@", "lib/base.min"))
            jobs.append(dict(mode="import", path=os.path.join(srv.dir, "m%d_0.min" % k)))
            wants.append((files, want, code, pat))
        for (files, want, code, pat), x in zip(wants, srv.run(jobs, cpu=40)):
            ck.observe(tuple(files.items()))
            ck.count("module programs")
            b = judge((want, code, pat), x)
            if b:
                ck.violate("module", "%s\nfiles %s\nexpected %r, status %d, report %r\nobserved %s" % (b, files, want, code, pat, x.brief()), repr(files))
    finally:
        srv.close()
    ck.finish()


if __name__ == "__main__":
    vp.main(main)
