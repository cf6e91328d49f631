"""Independent interpreter of the core language (the oracle of C01 and others).

Programs are Python lists (forms), Sym (variables) and model values (literals)."""
import sys, threading
from sexp import *

sys.setrecursionlimit(200000)


class MErr(Exception):
    """an error report: kind and, where the text is fixed, a pattern it must contain"""
    def __init__(self, kind, *detail):
        self.kind, self.detail = kind, detail


class Raised(Exception):
    def __init__(self, v):
        self.v = v


class TooLong(Exception):
    pass


class Skip(Exception):
    """outside of what the model judges"""


class MV(tuple):
    pass


UNB = Const("#<unbound>")


class Closure:
    __slots__ = ("clauses", "env")

    def __init__(self, clauses, env):
        self.clauses, self.env = clauses, env

    def written(self):
        return "#<procedure>"


class Prim:
    __slots__ = ("name", "fn", "lo", "hi")

    def __init__(self, name, fn, lo, hi):
        self.name, self.fn, self.lo, self.hi = name, fn, lo, hi

    def written(self):
        return "#<procedure>"


class Env:
    __slots__ = ("b", "up")

    def __init__(self, b, up):
        self.b, self.up = b, up

    def find(self, n):
        e = self
        while e is not None:
            if n in e.b:
                return e
            e = e.up
        return None


def wrap64(n):
    n &= (1 << 64) - 1
    return n - (1 << 64) if n >> 63 else n


def datum(d):
    """quoted Python lists to model data"""
    if isinstance(d, (list, tuple)):
        return lst([datum(x) for x in d])
    if isinstance(d, Vec):
        return Vec([datum(x) for x in d.v])
    if isinstance(d, Box):
        return Box(datum(d.v))
    if isinstance(d, Pair):
        return Pair(datum(d.a), datum(d.d))
    return d


S = Sym
QUOTE, IF, BEGIN, SET, DEF, LAM, CASE, LETV, LETREC, QS = map(
    Sym, ("quote", "if", "begin", "set!", "define-values", "lambda", "case-lambda", "let-values", "letrec-values",
          "quote-syntax"))
CWV, APPLY, VALUES, EVAL = map(Sym, ("call-with-values", "apply", "values", "eval"))


def formals(f):
    """formals as ([names], rest or None); written as list, Sym, or Pair chain"""
    if isinstance(f, Sym):
        return [], f
    if isinstance(f, (list, tuple)):
        return list(f), None
    xs, t = unlist(f)
    return xs, (None if t is NIL else t)


class Interp:
    def __init__(self, limit=200000):
        self.out = []
        self.steps = 0
        self.limit = limit
        self.top = Env({}, None)
        self.install()

    # -- procedures
    def apply_proc(self, f, args):
        """non-tail application from a primitive; the result may be MV"""
        return self.force(f, args)

    def force(self, f, args):
        while True:
            if isinstance(f, Prim):
                if len(args) < f.lo or (f.hi is not None and len(args) > f.hi):
                    raise MErr("arity")
                self.tick()
                r = f.fn(*args)
                if isinstance(r, Tail):
                    f, args = r.f, r.args
                    continue
                return r
            if not isinstance(f, Closure):
                raise MErr("notproc")
            body, env = self.enter(f, args)
            r = self.ev(body, env, True)
            if isinstance(r, Tail):
                f, args = r.f, r.args
                continue
            return r

    def enter(self, f, args):
        n = len(args)
        for names, rest, body in f.clauses:
            if n == len(names) or (rest is not None and n > len(names)):
                b = dict(zip(names, args))
                if rest is not None:
                    b[rest] = lst(args[len(names):])
                return body, Env(b, f.env)
        raise MErr("arity")

    def tick(self):
        self.steps += 1
        if self.steps > self.limit:
            raise TooLong()

    def one(self, v):
        if isinstance(v, MV):
            raise MErr("arity")
        return v

    def ev1(self, e, env):
        return self.one(self.ev(e, env))

    def seq(self, body, env, tail):
        for x in body[:-1]:
            self.ev(x, env)
        return self.ev(body[-1], env, tail) if body else VOID

    def ev(self, e, env, tail=False):
        while True:
            self.tick()
            if isinstance(e, Sym):
                s = env.find(e)
                if s is None or s.b[e] is UNB:
                    raise MErr("unbound", e)
                return s.b[e]
            if not isinstance(e, list):
                return e
            h = e[0]
            if isinstance(h, Sym):
                if h == QUOTE:
                    return datum(e[1])
                if h == IF:
                    c = self.ev(e[1], env)
                    if isinstance(c, MV):
                        raise Skip()
                    e = e[2] if c is not False else e[3]
                    continue
                if h == BEGIN:
                    if len(e) == 1:
                        return VOID
                    for x in e[1:-1]:
                        self.ev(x, env)
                    e = e[-1]
                    continue
                if h == LAM:
                    ns, r = formals(e[1])
                    return Closure([(ns, r, [BEGIN] + e[2:])], env)
                if h == CASE:
                    cl = []
                    for c in e[1:]:
                        ns, r = formals(c[0])
                        cl.append((ns, r, [BEGIN] + c[1:]))
                    return Closure(cl, env)
                if h == SET:
                    v = self.ev1(e[2], env)
                    s = env.find(e[1])
                    if s is None:
                        raise MErr("setundef", e[1])
                    s.b[e[1]] = v
                    return VOID
                if h == DEF:
                    v = self.ev(e[2], env)
                    vs = v if isinstance(v, MV) else (v,)
                    if len(vs) != len(e[1]):
                        raise MErr("arity")
                    for n, x in zip(e[1], vs):
                        self.top.b[n] = x
                    return VOID
                if h == LETV or h == LETREC:
                    if h == LETREC:
                        b = {}
                        for ids, _ in e[1]:
                            for i in ids:
                                b[i] = UNB
                        ne = Env(b, env)
                        for ids, x in e[1]:
                            v = self.ev(x, ne)
                            vs = v if isinstance(v, MV) else (v,)
                            if len(vs) != len(ids):
                                raise MErr("arity")
                            for i, y in zip(ids, vs):
                                b[i] = y
                    else:
                        b = {}
                        for ids, x in e[1]:
                            v = self.ev(x, env)
                            vs = v if isinstance(v, MV) else (v,)
                            if len(vs) != len(ids):
                                raise MErr("arity")
                            for i, y in zip(ids, vs):
                                b[i] = y
                        ne = Env(b, env)
                    env = ne
                    e = [BEGIN] + e[2:]
                    continue
            # application
            f = self.ev1(h, env)
            args = [self.ev1(x, env) for x in e[1:]]
            if tail:
                return Tail(f, args)
            return self.force(f, args)

    # -- toplevel
    def run(self, forms):
        """-> (list of per-form written results, error or None)"""
        res = []
        for f in forms:
            try:
                v = self.ev(f, self.top)
            except MErr as x:
                return res, x
            except Raised as x:
                return res, x
            if isinstance(v, MV):
                for y in v:
                    self.out.append(write(y) + "\n")
                self.out.append("#<%d values>\n" % len(v))
            else:
                self.out.append(write(v) + "\n")
            res.append(v)
        self.out.append("#<end>\n")
        return res, None

    # -- primitives
    def install(self):
        d = self.top.b

        def defp(name, fn, lo, hi=-1):
            d[Sym(name)] = Prim(name, fn, lo, lo if hi == -1 else hi)

        def isint(x):
            return isinstance(x, int) and not isinstance(x, bool)

        def num(*xs):
            for x in xs:
                if not isint(x):
                    raise MErr("contract")

        def pair(x):
            if not isinstance(x, Pair):
                raise MErr("contract")

        def need(c):
            if not c:
                raise MErr("contract")

        def proc(f):
            need(isinstance(f, (Closure, Prim)))

        defp("cons", Pair, 2)
        defp("car", lambda p: (pair(p), p.a)[1], 1)
        defp("cdr", lambda p: (pair(p), p.d)[1], 1)
        defp("list", lambda *a: lst(a), 0, None)
        defp("null?", lambda x: x is NIL, 1)
        defp("pair?", lambda x: isinstance(x, Pair), 1)
        defp("not", lambda x: x is False, 1)
        defp("procedure?", lambda x: isinstance(x, (Closure, Prim)), 1)
        defp("void", lambda: VOID, 0)
        defp("eq?", lambda a, b: (a is b) or (isint(a) and isint(b) and a == b) or
             (isinstance(a, Sym) and isinstance(b, Sym) and a == b) or (isinstance(a, Char) and a == b), 2)
        defp("equal?", lambda a, b: equal(a, b), 2)
        defp("symbol?", lambda x: isinstance(x, Sym), 1)
        defp("integer?", isint, 1)

        def plist(p):
            need(is_list(p))
            return unlist(p)[0]

        defp("length", lambda p: len(plist(p)), 1)
        defp("reverse", lambda p: lst(reversed(plist(p))), 1)

        def append(*ls):
            if not ls:
                raise Skip()
            for x in ls:
                need(is_list(x))
            t = ls[-1]
            for x in reversed(ls[:-1]):
                t = lst(unlist(x)[0], t)
            return t
        defp("append", append, 1, None)

        def add(*a):
            num(*a)
            return wrap64(sum(a))

        def mul(*a):
            num(*a)
            r = 1
            for x in a:
                r = wrap64(r * x)
            return r

        def sub(x, *a):
            num(x, *a)
            return wrap64(x - sum(a)) if a else wrap64(-x)
        defp("+", add, 0, None)
        defp("*", mul, 0, None)
        defp("-", sub, 1, None)
        defp("add1", lambda x: add(x, 1), 1)
        defp("sub1", lambda x: add(x, -1), 1)
        import operator
        for n, o in (("=", operator.eq), ("<", operator.lt), (">", operator.gt), ("<=", operator.le), (">=", operator.ge)):
            def cmp(*a, o=o):
                num(*a)
                return all(o(x, y) for x, y in zip(a, a[1:]))
            defp(n, cmp, 1, None)
        defp("box", Box, 1)

        def isbox(b):
            need(isinstance(b, Box))
        defp("unbox", lambda b: (isbox(b), b.v)[1], 1)

        def setbox(b, v):
            isbox(b)
            b.v = v
            return VOID
        defp("set-box!", setbox, 2)
        defp("vector", lambda *a: Vec(a), 0, None)

        def vref(v, i):
            need(isinstance(v, Vec))
            need(isint(i) and i >= 0)
            if i >= len(v.v):
                raise MErr("range")
            return v.v[i]

        def vset(v, i, x):
            vref(v, i)
            v.v[i] = x
            return VOID
        defp("vector-ref", vref, 2)
        defp("vector-set!", vset, 3)
        defp("vector-length", lambda v: (need(isinstance(v, Vec)), len(v.v))[1], 1)

        def setcar(p, v):
            pair(p)
            p.a = v
            return VOID

        def setcdr(p, v):
            pair(p)
            p.d = v
            return VOID
        defp("set-car!", setcar, 2)
        defp("set-cdr!", setcdr, 2)

        def disp(x, *rest):
            if rest:
                raise Skip()
            self.out.append(write(x, True))
            return VOID
        defp("display", disp, 1, 2)

        def values(*a):
            return a[0] if len(a) == 1 else MV(a)
        defp("values", values, 0, None)

        def apply_(f, *a):
            if not isinstance(f, (Closure, Prim)):
                raise MErr("anyerr")
            if not is_list(a[-1]):
                raise MErr("apply")
            return Tail(f, list(a[:-1]) + unlist(a[-1])[0])
        defp("apply", apply_, 2, None)

        def cwv(p, c):
            v = self.force(p, [])
            return Tail(c, list(v) if isinstance(v, MV) else [v])
        defp("call-with-values", cwv, 2)

        def eval_(e):
            return self.ev(undatum(e), self.top)
        defp("eval", eval_, 1)

        def mapn(f, *ls):
            proc(f)
            xs = [plist(x) for x in ls]
            if len(set(map(len, xs))) > 1:
                raise Skip()
            out = []
            for t in zip(*xs):
                out.append(self.one(self.force(f, list(t))))
            return lst(out)

        def foreach(f, *ls):
            proc(f)
            xs = [plist(x) for x in ls]
            if len(set(map(len, xs))) > 1:
                raise Skip()
            for t in zip(*xs):
                self.force(f, list(t))
            return VOID
        defp("map", mapn, 2, None)
        defp("for-each", foreach, 2, None)

        def err(who, msg, *irr):
            raise MErr("user", who, msg, *irr)
        defp("error", err, 2, None)


class Tail:
    __slots__ = ("f", "args")

    def __init__(self, f, args):
        self.f, self.args = f, args


def undatum(d):
    """model data to program form"""
    if isinstance(d, Pair):
        xs, t = unlist(d)
        if t is not NIL:
            return d
        xs = [undatum(x) for x in xs]
        return xs
    if d is NIL:
        return []
    return d


PATTERNS = {
    "arity": rb"arity mismatch",
    "unbound": rb"cannot use before initialization",
    "setundef": rb"cannot set variable before its definition",
    "notproc": rb"[^\n]*expected procedure",
    "contract": rb"contract violation",
    "range": rb"index out of bounds",
    "apply": rb"[^\n]*apply[^\n]*: ",
    "anyerr": rb"\S",
    "closed": rb"[^\n]*port is closed",
    "read": rb"[^\n]*read_object: ",
}


def big_stack(fn):
    """run fn in a thread with a large stack"""
    box = []

    def go():
        try:
            box.append(("ok", fn()))
        except BaseException as e:
            box.append(("ex", e))
    threading.stack_size(512 << 20)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if box[0][0] == "ex":
        raise box[0][1]
    return box[0][1]
