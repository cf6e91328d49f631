"""Reference model of the public core procedures, on top of the reference interpreter."""
import operator
import re
from sexp import *
from refeval import *
from refeval import Tail
import rdr


def isint(x):
    return isinstance(x, int) and not isinstance(x, bool)


class Port:
    def __init__(self, kind, text="", inp=False):
        self.kind, self.inp, self.buf, self.pos, self.open = kind, inp, text, 0, True

    def written(self):
        return "#<input port>" if self.inp else "#<output port>"


class HT:
    """hashtable: entries as a list of [key, value], compared by the table's equivalence"""
    def __init__(self, hash, equiv):
        self.hash, self.equiv, self.e = hash, equiv, []

    def written(self):
        return "#<hashtable>"


class Rtd:
    def __init__(self, name, parent, uid, sealed, opaque, fields):
        self.name, self.parent, self.uid, self.sealed, self.opaque, self.fields = name, parent, uid, sealed, opaque, fields
        self.eqp = parent.eqp if parent else None
        self.hashp = parent.hashp if parent else None
        self.writer = parent.writer if parent else None

    def size(self):
        return len(self.fields) + (self.parent.size() if self.parent else 0)

    def isa(self, o):
        r = self
        while r is not None:
            if r is o:
                return True
            r = r.parent
        return False

    def written(self):
        return "#<record-type:%s>" % self.name


class Rec:
    def __init__(self, rtd, vals):
        self.rtd, self.vals = rtd, vals

    def written(self):
        return "#<%s>" % self.rtd.name


class Stx:
    def __init__(self, e, loc=False):
        self.e, self.loc = e, loc

    def written(self):
        return "#<syntax %s>" % write(strip(self))


def strip(x):
    if isinstance(x, Stx):
        return strip(x.e)
    if isinstance(x, Pair):
        xs, t = unlist(x)
        return lst([strip(y) for y in xs], strip(t) if t is not NIL else NIL)
    if isinstance(x, Vec):
        return Vec([strip(y) for y in x.v])
    if isinstance(x, Box):
        return Box(strip(x.v))
    return x


def to_stx(x):
    if isinstance(x, Stx):
        return x
    if isinstance(x, Pair):
        xs, t = unlist(x)
        return Stx(lst([to_stx(y) for y in xs], to_stx(t) if t is not NIL else NIL))
    if isinstance(x, Vec):
        return Stx(Vec([to_stx(y) for y in x.v]))
    if isinstance(x, Box):
        return Stx(Box(to_stx(x.v)))
    return Stx(x)


def is_proc(x):
    return isinstance(x, (Closure, Prim))


def eq(a, b):
    if isint(a) and isint(b):
        return a == b
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a is b if (getattr(a, "fresh", 0) or getattr(b, "fresh", 0)) else str(a) == str(b)
    if isinstance(a, Char) and isinstance(b, Char):
        return a.c == b.c
    if isinstance(a, (Vec,)) and isinstance(b, Vec) and not a.v and not b.v and a is not b:
        raise Skip()        # sharing of the empty vector is not specified
    return a is b


def err(who, msg, *irr):
    raise MErr("user", who, Str(msg), *irr)


def contract(who, expected, given):
    raise MErr("contract", who, expected, given)


def err_pattern(e):
    """regular expression the error output must match, from its start"""
    k, d = e.kind, e.detail
    q = re.escape

    def disp(v):
        s = write(v, True)
        return q(s) if "#<procedure" not in s else q(s).replace(q("#<procedure>"), "#<procedure[^>]*>")
    if k == "contract" and d and d[1] is None:
        return "%s: contract violation\n  expected: [^\n]+\n  given: %s\n$" % (q(str(d[0])), disp(d[2]))
    if k == "contract" and d:
        return "%s: contract violation\n  expected: %s\n  given: %s\n$" % (q(str(d[0])), q(d[1]), disp(d[2]))
    if k == "range" and d:
        who, descr, lo, hi, idx, val = d
        s = descr + " index" if descr else "index"
        return "%s: %s out of bounds\n  range: \\[%d, %d\\)\n  %s: %d\n  in: %s\n$" % (q(who), s, lo, hi, s, idx, disp(val))
    if k == "missing" and d:
        return "%s: %s not found\n  %s: %s\n  in: %s\n$" % (q(d[0]), d[1], d[1], disp(d[2]), disp(d[3]))
    if k == "user":
        who, msg, *irr = d
        w = "error" if who is False or who is None else (who.s if isinstance(who, Str) else str(who))
        s = q("%s: %s\n" % (w, msg.s))
        if len(irr) == 1:
            s += q("  argument: ") + q(write(irr[0])) + "\n"
        elif irr:
            s += q("  arguments...:\n") + "\n".join(q("   " + write(x)) for x in irr) + "\n"
        return s + "$"
    if k == "uncaught":
        return "uncaught exception: %s\n$" % disp(d[0])
    if k == "arity":
        return "[^\n]*arity mismatch"
    return PATTERNS[k].decode()


class FullInterp(Interp):
    def __init__(self, limit=200000):
        self.out_port = Port("std")
        self.in_port = Port("std", self.stdin, True)
        super().__init__(limit)
        self.out_port.buf = None

    # output of the process is self.out
    def emit(self, p, s):
        if p is self.out_port:
            self.out.append(s)
        elif not p.open:
            if not s:
                raise Skip()        # nothing to write
            raise MErr("closed")
        else:
            p.buf += s

    stdin = ""
    anyorder = True         # entries in any order are all right for the program

    def seen(self, t):
        if not self.anyorder and len(t.e) > 1:
            raise Skip()
        return t

    def apply1(self, f, *args):
        return self.one(self.force(f, list(args)))

    # -- equality
    def equal(self, a, b):
        if isinstance(a, Sym) or isinstance(b, Sym) or isint(a) or isint(b) or isinstance(a, (bool, Char)):
            return eq(a, b)
        if a is b:
            return True
        if isinstance(a, Str):
            return isinstance(b, Str) and a.s == b.s
        if isinstance(a, Pair):
            while isinstance(a, Pair):
                if not isinstance(b, Pair) or not self.equal(a.a, b.a):
                    return False
                a, b = a.d, b.d
            return not isinstance(b, Pair) and self.equal(a, b)
        if isinstance(a, Vec):
            return isinstance(b, Vec) and len(a.v) == len(b.v) and all(self.equal(x, y) for x, y in zip(a.v, b.v))
        if isinstance(a, Box):
            return isinstance(b, Box) and self.equal(a.v, b.v)
        if isinstance(a, HT):
            if not isinstance(b, HT) or a.hash is not b.hash or a.equiv is not b.equiv or len(a.e) != len(b.e):
                return False
            for k, v in a.e:
                i = self.ht_find(b, k)
                if i is None or not self.equal(v, b.e[i][1]):
                    return False
            return True
        if isinstance(a, Rec):
            if not isinstance(b, Rec):
                return False
            p = a.rtd.eqp
            if p is not None and p is b.rtd.eqp:
                return self.apply1(p, a, b, self.top.b[Sym("equal?")]) is not False
            d = self.default_eq
            if d is not None:
                return self.apply1(d, a, b, self.top.b[Sym("equal?")]) is not False
        return False

    def ht_find(self, t, k):
        eqp = t.equiv
        name = getattr(eqp, "name", None)
        for i, (k2, _) in enumerate(t.e):
            if name == "eq?":
                r = eq(k2, k)
            elif name == "equal?":
                r = self.equal(k2, k)
            else:
                r = self.apply1(eqp, k2, k) is not False
            if r:
                return i
        return None

    def ht_hash(self, t, k):
        if getattr(t.hash, "name", None) in ("eq-hash", "equal-hash"):
            return
        h = self.apply1(t.hash, k)
        if not isint(h):
            raise MErr("user", "do-hash", Str("invalid hash function"), t.hash, k)

    def install(self):
        super().install()
        self.default_eq = None
        self.default_hash = None
        self.out_port = Port("std")
        d = self.top.b

        def defp(name, fn, lo, hi=-1):
            d[Sym(name)] = Prim(name, fn, lo, lo if hi == -1 else hi)
        NN = "non-negative-integer?"

        def typed(who, pred, exp):
            def chk(x):
                if not pred(x):
                    contract(who, exp, x)
                return x
            return chk

        # ---- predicates
        for n, p in (("null?", lambda x: x is NIL), ("void?", lambda x: x is VOID), ("eof-object?", lambda x: x is EOF),
                     ("boolean?", lambda x: isinstance(x, bool)), ("not", lambda x: x is False),
                     ("char?", lambda x: isinstance(x, Char)), ("symbol?", lambda x: isinstance(x, Sym)),
                     ("pair?", lambda x: isinstance(x, Pair)), ("list?", is_list), ("vector?", lambda x: isinstance(x, Vec)),
                     ("fixnum?", isint), ("integer?", isint), ("number?", isint), ("string?", lambda x: isinstance(x, Str)),
                     ("box?", lambda x: isinstance(x, Box)), ("procedure?", is_proc), ("hashtable?", lambda x: isinstance(x, HT)),
                     ("syntax?", lambda x: isinstance(x, Stx)), ("input-port?", lambda x: isinstance(x, Port) and x.inp),
                     ("output-port?", lambda x: isinstance(x, Port) and not x.inp),
                     ("record-type-descriptor?", lambda x: isinstance(x, Rtd)),
                     ("record?", lambda x: isinstance(x, Rec) and not x.rtd.opaque),
                     ("negative-integer?", lambda x: isint(x) and x < 0), ("negative?", lambda x: isint(x) and x < 0),
                     ("non-negative-integer?", lambda x: isint(x) and x >= 0), ("non-negative?", lambda x: isint(x) and x >= 0),
                     ("positive-integer?", lambda x: isint(x) and x > 0), ("positive?", lambda x: isint(x) and x > 0),
                     ("string-port?", lambda x: isinstance(x, Port) and x.kind == "string")):
            defp(n, p, 1)
        defp("identity", lambda x: x, 1)
        defp("eq?", eq, 2)
        defp("equal?", lambda a, b: self.equal(a, b), 2)

        # ---- pairs
        def cxr(name):
            ops = name[1:-1]
            if len(ops) == 1:
                exp = "pair?"
            else:
                exp = None

            def f(x):
                y = x
                for o in reversed(ops):
                    if not isinstance(y, Pair):
                        contract(name, exp, x)
                    y = y.a if o == "a" else y.d
                return y
            return f
        import itertools
        for n in (1, 2, 3, 4):
            for t in itertools.product("ad", repeat=n):
                nm = "c%sr" % "".join(t)
                defp(nm, cxr(nm), 1)

        def setc(who, attr):
            chk = typed(who, lambda x: isinstance(x, Pair), "pair?")

            def f(p, v):
                setattr(chk(p), attr, v)
                return VOID
            return f
        defp("set-car!", setc("set-car!", "a"), 2)
        defp("set-cdr!", setc("set-cdr!", "d"), 2)

        # ---- numbers
        def num(who, x):
            if not isint(x):
                contract(who, "number?", x)
            return x

        def cmpop(who, o):
            def f(*a):
                if len(a) == 1:
                    num(who, a[0])
                    return True
                if len(a) == 2:
                    num(who, a[0])
                    num(who, a[1])
                    return o(*a)
                x = num(who, a[0])
                for y in a[1:]:
                    num(who, y)
                    if not o(x, y):
                        return False
                    x = y
                return True
            return f
        for n, o in (("=", operator.eq), ("<", operator.lt), (">", operator.gt), ("<=", operator.le), (">=", operator.ge)):
            defp(n, cmpop(n, o), 1, None)
        defp("zero?", lambda x: num("=", x) == 0, 1)

        def fold(who, o, unit, neg):
            def f(*a):
                if not a:
                    return unit
                if len(a) == 1:
                    num(who, a[0])
                    return neg(a[0])
                # the first two are checked together, then one at a time
                r = num(who, a[0])
                for y in a[1:]:
                    r = o(r, num(who, y))
                return r
            return f

        def div(a, b):
            if b == 0:
                raise MErr("user", "/", Str("division by zero"), b)
            q = abs(a) // abs(b)
            return wrap64(q if (a < 0) == (b < 0) else -q)

        def div1(x):
            if x == 0:
                raise MErr("user", "/", Str("division by zero"), x)
            return div(1, x)
        defp("+", fold("+", lambda a, b: wrap64(a + b), 0, lambda x: x), 0, None)
        defp("*", fold("*", lambda a, b: wrap64(a * b), 1, lambda x: x), 0, None)
        defp("-", fold("-", lambda a, b: wrap64(a - b), 0, lambda x: wrap64(-x)), 1, None)
        defp("/", fold("/", div, 1, div1), 1, None)
        defp("add1", lambda x: wrap64(num("add1", x) + 1), 1)
        defp("sub1", lambda x: wrap64(num("sub1", x) - 1), 1)

        def rem(a, b):
            num("remainder", a)
            if num("remainder", b) == 0:
                raise MErr("user", "remainder", Str("division by zero"), b)
            r = abs(a) % abs(b)
            return -r if a < 0 else r

        def mod(a, b):
            num("modulo", a)
            if num("modulo", b) == 0:
                raise MErr("user", "modulo", Str("division by zero"), b)
            return a % b
        defp("remainder", rem, 2)
        defp("modulo", mod, 2)
        chkn = typed("number->string", isint, "number?")
        defp("number->string", lambda x: Str(str(chkn(x))), 1)

        def s2n(s):
            if not isinstance(s, Str):
                contract("string->number", "string?", s)
            if re.fullmatch(r"[+-]?[0-9]+", s.s):
                v = int(s.s)
                return v if -(1 << 63) <= v < 1 << 63 else False
            if s.s[:1] in " \t\n\v\f\r" and s.s:
                raise Skip()
            return False
        defp("string->number", s2n, 1)

        # ---- characters, strings
        chkc = typed("char->integer", lambda x: isinstance(x, Char), "char?")
        defp("char->integer", lambda c: ord(chkc(c).c), 1)

        def i2c(n):
            if not isint(n):
                contract("integer->char", "integer?", n)
            if not 0 <= n < 256:
                raise MErr("range", "integer->char", "", 0, 256, n, n)
            return Char(chr(n))
        defp("integer->char", i2c, 1)

        def chars(who, xs):
            for x in xs:
                if not isinstance(x, Char):
                    contract(who, "char?", x)
            if any(x.c == "\0" for x in xs):
                raise Skip()
            return Str("".join(x.c for x in xs))
        defp("string", lambda *a: chars("string", a), 0, None)

        def l2s(x):
            if not is_list(x):
                contract("list->string", "list?", x)
            return chars("list->string", unlist(x)[0])
        defp("list->string", l2s, 1)

        def nn(who, n, exp=NN):
            if not (isint(n) and n >= 0):
                contract(who, exp, n)
            return n

        def big(n):
            if n > 100000:
                raise Skip()

        def mkstr(n, c=Char("a")):
            nn("make-string", n)
            if not isinstance(c, Char):
                contract("make-string", "char?", c)
            big(n)
            if c.c == "\0" and n:
                raise Skip()
            return Str(c.c * n)
        defp("make-string", mkstr, 1, 2)

        def st(who, s):
            if not isinstance(s, Str):
                contract(who, "string?", s)
            return s
        defp("string-length", lambda s: len(st("string-length", s).s), 1)

        def sref(s, i):
            st("string-ref", s)
            nn("string-ref", i)
            if i >= len(s.s):
                raise MErr("range", "string-ref", "", 0, len(s.s), i, s)
            return Char(s.s[i])
        defp("string-ref", sref, 2)

        def sset(s, i, c):
            st("string-set!", s)
            nn("string-set!", i)
            if i >= len(s.s):
                raise MErr("range", "string-set!", "", 0, len(s.s), i, s)
            if not isinstance(c, Char):
                contract("string-set!", "char?", c)
            if c.c == "\0":
                raise Skip()
            s.s = s.s[:i] + c.c + s.s[i + 1:]
            return VOID
        defp("string-set!", sset, 3)

        def sapp(*a):
            for x in a:
                st("string-append", x)
            if len(a) == 1:
                return a[0]
            return Str("".join(x.s for x in a))
        defp("string-append", sapp, 0, None)

        def sy2s(s):
            if not isinstance(s, Sym):
                contract("symbol->string", "symbol?", s)
            return Str(str(s))
        defp("symbol->string", sy2s, 1)
        defp("string->symbol", lambda s: Sym(st("string->symbol", s).s), 1)
        defp("string->list", lambda s: lst([Char(c) for c in st("string->list", s).s]), 1)

        # ---- lists
        def ls(who, x):
            if not is_list(x):
                contract(who, "list?", x)
            return unlist(x)[0]
        defp("list", lambda *a: lst(a), 0, None)

        def mklist(n, x):
            nn("make-list", n)
            big(n)
            return lst([x] * n)
        defp("make-list", mklist, 2)
        defp("length", lambda x: len(ls("length", x)), 1)
        defp("reverse", lambda x: lst(reversed(ls("reverse", x))), 1)

        def append(*a):
            if not a:
                return NIL
            if len(a) <= 2:
                for x in a:
                    ls("append", x)
            else:
                for x in reversed(a):
                    ls("append", x)
            t = a[-1]
            for x in reversed(a[:-1]):
                t = lst(unlist(x)[0], t)
            return t
        defp("append", append, 0, None)

        def walk(who):
            def f(fn, *xs):
                if not is_proc(fn):
                    contract(who, "procedure?", fn)
                prev = None
                for x in xs:
                    n = len(ls(who, x))
                    if prev is not None and n != prev:
                        raise MErr("user", who, Str("lists do not have same size; expected %d, given %s" % (prev, write(x, True))))
                    prev = n
                rows = list(zip(*[unlist(x)[0] for x in xs]))
                out = []
                for row in rows:
                    r = self.force(fn, list(row))
                    if who == "for-each":
                        continue
                    r = self.one(r)
                    if who == "map":
                        out.append(r)
                    elif who == "andmap" and r is False:
                        return False
                    elif who == "ormap" and r is not False:
                        return True
                return {"for-each": VOID, "map": lst(out), "andmap": True, "ormap": False}[who]
            return f
        for n in ("map", "for-each", "andmap", "ormap"):
            defp(n, walk(n), 2, None)

        def iota(n):
            nn("iota", n, "non-negative-fixnum?")
            big(n)
            return lst(range(n))
        defp("iota", iota, 1)
        defp("enumerate", lambda x: lst([Pair(y, i) for i, y in enumerate(ls("enumerate", x))]), 1)

        # ---- vectors, boxes
        defp("vector", lambda *a: Vec(a), 0, None)

        def mkvec(n, x=0):
            nn("make-vector", n)
            big(n)
            return Vec([x] * n)
        defp("make-vector", mkvec, 1, 2)

        def vc(who, v):
            if not isinstance(v, Vec):
                contract(who, "vector?", v)
            return v
        defp("vector-length", lambda v: len(vc("vector-length", v).v), 1)

        def vref(v, i):
            vc("vector-ref", v)
            nn("vector-ref", i)
            if i >= len(v.v):
                raise MErr("range", "vector-ref", "", 0, len(v.v), i, v)
            return v.v[i]

        def vset(v, i, x):
            vc("vector-set!", v)
            nn("vector-set!", i)
            if i >= len(v.v):
                raise MErr("range", "vector-set!", "", 0, len(v.v), i, v)
            v.v[i] = x
            return VOID

        def vfill(v, x):
            vc("vector-fill!", v)
            v.v[:] = [x] * len(v.v)
            return VOID
        defp("vector-ref", vref, 2)
        defp("vector-set!", vset, 3)
        defp("vector-fill!", vfill, 2)
        defp("list->vector", lambda x: Vec(ls("list->vector", x)), 1)
        defp("vector->list", lambda v: lst(vc("vector->list", v).v), 1)

        def bx(who, b):
            if not isinstance(b, Box):
                contract(who, "box?", b)
            return b

        def setbox(b, v):
            bx("set-box!", b).v = v
            return VOID
        defp("box", Box, 1)
        defp("unbox", lambda b: bx("unbox", b).v, 1)
        defp("set-box!", setbox, 2)

        # ---- hashtables
        def mkht(h, e):
            return HT(h, e)
        defp("make-custom-hashtable", mkht, 2)
        d[Sym("eq-hash")] = Prim("eq-hash", lambda x: self.skip(), 1, 1)
        d[Sym("equal-hash")] = Prim("equal-hash", lambda x: self.skip(), 1, 1)
        defp("make-eq-hashtable", lambda: HT(d[Sym("eq-hash")], d[Sym("eq?")]), 0)
        defp("make-hashtable", lambda: HT(d[Sym("equal-hash")], d[Sym("equal?")]), 0)

        def tb(who, t):
            if not isinstance(t, HT):
                contract(who, "hashtable?", t)
            return t

        def hcopy(t):
            tb("hashtable-copy", t)
            r = HT(t.hash, t.equiv)
            r.e = [list(x) for x in t.e]
            return r
        defp("hashtable-copy", hcopy, 1)
        defp("hashtable-hash-proc", lambda t: tb("hashtable-hash-proc", t).hash, 1)
        defp("hashtable-equiv-proc", lambda t: tb("hashtable-equiv-proc", t).equiv, 1)
        defp("hashtable-size", lambda t: len(tb("hashtable-size", t).e), 1)
        defp("hashtable-keys", lambda t: Vec([k for k, _ in self.seen(tb("hashtable-keys", t)).e]), 1)
        defp("hashtable-vals", lambda t: Vec([v for _, v in self.seen(tb("hashtable-vals", t)).e]), 1)
        defp("hashtable-entries", lambda t: MV((Vec([k for k, _ in self.seen(tb("hashtable-entries", t)).e]),
                                                Vec([v for _, v in t.e]))), 1)

        def contains(t, k):
            tb("hashtable-contains?", t)
            self.ht_hash(t, k)
            return self.ht_find(t, k) is not None
        defp("hashtable-contains?", contains, 2)

        NONE = object()

        def href(t, k, df=NONE):
            tb("hashtable-ref", t)
            self.ht_hash(t, k)
            i = self.ht_find(t, k)
            if i is not None:
                return t.e[i][1]
            if df is NONE:
                raise MErr("missing", "hashtable-ref", "key", k, t)
            return Tail(df, []) if is_proc(df) else df
        defp("hashtable-ref", href, 2, 3)

        def hset_(t, k, v):
            self.ht_hash(t, k)
            i = self.ht_find(t, k)
            if i is None:
                t.e.append([k, v])
            else:
                t.e[i][1] = v
            return VOID

        def hset(t, k, v):
            tb("hashtable-set!", t)
            return hset_(t, k, v)
        defp("hashtable-set!", hset, 3)

        def hupd(t, k, f, df=NONE):
            tb("hashtable-update!", t)
            if not is_proc(f):
                contract("hashtable-update!", "procedure?", f)
            self.ht_hash(t, k)
            i = self.ht_find(t, k)
            if i is not None:
                v = t.e[i][1]
            elif df is NONE:
                raise MErr("missing", "hashtable-update!", "key", k, t)
            else:
                v = self.apply1(df) if is_proc(df) else df
            return hset_(t, k, self.apply1(f, v))
        defp("hashtable-update!", hupd, 3, 4)

        def hdel(t, k):
            tb("hashtable-delete!", t)
            self.ht_hash(t, k)
            i = self.ht_find(t, k)
            if i is not None:
                del t.e[i]
            return VOID
        defp("hashtable-delete!", hdel, 2)

        def hclear(t):
            tb("hashtable-clear!", t).e.clear()
            return VOID
        defp("hashtable-clear!", hclear, 1)

        # ---- records
        def mkrtd(name, parent, uid, sealed, opaque, fields):
            who = "make-record-type-descriptor"
            if not isinstance(name, Sym):
                contract(who, "symbol?", name)
            if isinstance(parent, Rtd):
                if parent.sealed:
                    contract(who, "non-sealed record type", parent)
            elif parent is not False:
                contract(who, "record-type-descriptor? or #f", parent)
            if not (isinstance(uid, Sym) or uid is False):
                contract(who, "symbol? or #f", uid)
            if not isinstance(sealed, bool):
                contract(who, "boolean?", sealed)
            if not isinstance(opaque, bool):
                contract(who, "boolean?", opaque)
            if not isinstance(fields, Vec):
                contract(who, "vector?", fields)
            fs = []
            for f in fields.v:
                xs, t = unlist(f)
                if t is not NIL or len(xs) != 2 or xs[0] not in ("mutable", "immutable") or not all(isinstance(x, Sym) for x in xs):
                    contract(who, "invalid field; '(immutable <name>) or '(mutable <name>)", f)
                if any(xs[1] == y for _, y in fs):
                    contract(who, "duplicate field", xs[1])
                fs.append((xs[0] == "mutable", xs[1]))
            return Rtd(name, parent or None, uid, sealed, opaque, fs)
        defp("make-record-type-descriptor", mkrtd, 6)

        def rt(who, x, exp="record-type-name?"):
            if not isinstance(x, Rtd):
                contract(who, exp, x)
            return x
        for n, g in (("name", lambda r: r.name), ("parent", lambda r: r.parent if r.parent else False),
                     ("uid", lambda r: r.uid), ("sealed?", lambda r: r.sealed), ("opaque?", lambda r: r.opaque),
                     ("field-names", lambda r: Vec([f for _, f in r.fields]))):
            def acc(r, n=n, g=g):
                return g(rt("record-type-" + n, r))
            defp("record-type-" + n, acc, 1)

        def fmut(r, i):
            rt("record-type-field-mutable?", r)
            nn("record-type-field-mutable?", i, "non-negative integer?")
            if i >= len(r.fields):
                raise MErr("range", "record-type-field-mutable?", "", 0, len(r.fields), i, r)
            return r.fields[i][0]
        defp("record-type-field-mutable?", fmut, 2)

        def rrtd(x):
            if not (isinstance(x, Rec) and not x.rtd.opaque):
                contract("record-rtd", "record?", x)
            return x.rtd
        defp("record-rtd", rrtd, 1)
        RTD = "record-type-descriptor?"

        def rcons(r):
            rt("record-constructor", r, RTD)
            n = r.size()

            def mk(*a):
                if len(a) != n:
                    raise MErr("arity")
                return Rec(r, list(a))
            return Prim("make", mk, 0, None)
        defp("record-constructor", rcons, 1)

        def rpred(r):
            rt("record-predicate", r, RTD)
            return Prim("pred", lambda x: isinstance(x, Rec) and x.rtd.isa(r), 1, 1)
        defp("record-predicate", rpred, 1)

        def racc(who, mut):
            def f(r, i):
                rt(who, r, RTD)
                nn(who, i)
                if i >= len(r.fields):
                    raise MErr("range", who, "", 0, len(r.fields), i, r)
                k = i + (r.parent.size() if r.parent else 0)

                def a(x, *v):
                    if not (isinstance(x, Rec) and x.rtd.isa(r)):
                        contract("@", str(r.name), x)
                    if mut:
                        x.vals[k] = v[0]
                        return VOID
                    return x.vals[k]
                return Prim("acc", a, 1 + mut, 1 + mut)
            return f
        defp("record-accessor", racc("record-accessor", 0), 2)
        defp("record-mutator", racc("record-mutator", 1), 2)

        def table(who, attr):
            def f(r, *p):
                rt(who, r, RTD)
                if not p:
                    v = getattr(r, attr)
                    return False if v is None else v
                if not is_proc(p[0]):
                    contract(who, "procedure?", p[0])
                setattr(r, attr, p[0])
                return VOID
            return f
        defp("record-type-equal-procedure", table("record-type-equal-procedure", "eqp"), 1, 2)
        defp("record-type-hash-procedure", table("record-type-hash-procedure", "hashp"), 1, 2)
        defp("record-writer", table("record-writer", "writer"), 1, 2)

        def dflt(who, attr):
            def f(*p):
                if not p:
                    v = getattr(self, attr)
                    return False if v is None else v
                if not is_proc(p[0]):
                    contract(who, "procedure?", p[0])
                setattr(self, attr, p[0])
                return VOID
            return f
        defp("default-record-equal-procedure", dflt("default-record-equal-procedure", "default_eq"), 0, 1)
        defp("default-record-hash-procedure", dflt("default-record-hash-procedure", "default_hash"), 0, 1)

        # ---- ports
        defp("current-output-port", lambda: self.out_port, 0)
        defp("open-output-string", lambda: Port("string"), 0)
        defp("open-input-string", lambda s: Port("string", st("open-input-string", s).s, True), 1)

        def inp(who, p):
            if not (isinstance(p, Port) and p.inp):
                contract(who, "input-port?", p)
            return p

        def outp(who, p, exp="output-port?"):
            if not (isinstance(p, Port) and not p.inp):
                contract(who, exp, p)
            return p

        def gos(p):
            if not (isinstance(p, Port) and not p.inp and p.kind == "string"):
                contract("get-output-string", "(and output-port? string-port?)", p)
            if not p.open:
                raise MErr("closed")
            s, p.buf = p.buf, ""
            return Str(s)
        defp("get-output-string", gos, 1)

        def close(who, chk):
            def f(p):
                if chk(who, p).kind == "std":
                    raise Skip()
                p.open = False
                return VOID
            return f
        defp("close-input-port", close("close-input-port", inp), 1)
        defp("close-output-port", close("close-output-port", outp), 1)

        def rd(who, adv):
            def f(p=None):
                p = self.in_port if p is None else p
                inp(who, p)
                if not p.open:
                    raise MErr("closed")
                if p.pos >= len(p.buf):
                    return EOF
                c = p.buf[p.pos]
                p.pos += adv
                return Char(c)
            return f
        defp("read-char", rd("read-char", 1), 0, 1)
        defp("peek-char", rd("peek-char", 0), 0, 1)

        def read(p=None):
            p = self.in_port if p is None else p
            inp("read", p)
            if not p.open:
                raise MErr("closed")
            r = rdr.Reader(p.buf)
            r.i = p.pos
            try:
                v = r.read()
            except rdr.ReadErr:
                raise MErr("read")
            except rdr.Unjudged:
                raise Skip()
            p.pos = r.i
            return v
        defp("read", read, 0, 1)
        defp("current-input-port", lambda: self.in_port, 0)

        def emitv(who, p, x, disp):
            if not (isinstance(p, Port) and not p.inp):
                contract(who, "output-port?", p)
            self.emit(p, self.wr(x, disp))
            return VOID
        defp("put-datum", lambda p, x: emitv("put-datum", p, x, False), 2)
        defp("write", lambda x, p=None: emitv("write", self.out_port if p is None else p, x, False), 1, 2)
        defp("display", lambda x, p=None: emitv("display", self.out_port if p is None else p, x, True), 1, 2)

        def pchar(p, c):
            outp("put-char", p)
            if not isinstance(c, Char):
                contract("put-char", "char?", c)
            self.emit(p, c.c)
            return VOID
        defp("put-char", pchar, 2)

        def wchar_(c, p=None):
            if not isinstance(c, Char):
                contract("write-char", "char?", c)
            if p is not None:
                outp("write-char", p)
            self.emit(p or self.out_port, c.c)
            return VOID
        defp("write-char", wchar_, 1, 2)

        def newline(p=None):
            if p is not None:
                outp("newline", p, "output port?")
            self.emit(p or self.out_port, "\n")
            return VOID
        defp("newline", newline, 0, 1)

        def pstr(p, s, *r):
            outp("put-string", p)
            st("put-string", s)
            for x in r:
                nn("put-string", x, "integer?")
            n = len(s.s)
            start = r[0] if r else 0
            if len(r) == 1 and start > n:
                raise MErr("range", "put-string", "start", 0, n + 1, start, s)
            cnt = r[1] if len(r) == 2 else n - start
            if start > n:
                raise MErr("range", "put-string", "start", 0, n + 1, start, s)
            if wrap64(start + cnt) > n:
                raise MErr("range", "put-string", "end", 0, n + 1, wrap64(start + cnt), s)
            if start + cnt > n:
                raise Skip()
            self.emit(p, s.s[start:start + cnt])
            return VOID
        defp("put-string", pstr, 2, 4)

        def flush(p):
            outp("flush-output-port", p)
            if not p.open:
                raise MErr("closed")
            return VOID
        defp("flush-output-port", flush, 1)

        def do_fmt(who, fmt, args):
            if not isinstance(fmt, Str):
                contract(who, "string?", fmt)
            s = fmt.s
            i, need, parts = 0, 0, []
            while i < len(s):
                c = s[i]
                if c != "~":
                    parts.append(c)
                    i += 1
                    continue
                if i + 1 >= len(s):
                    raise MErr("user", who, Str("ill-formed format string `%s`" % s))
                k = s[i + 1]
                i += 2
                if k in "aA":
                    need += 1
                    parts.append((True,))
                elif k in "sS":
                    need += 1
                    parts.append((False,))
                elif k == "%":
                    parts.append("\n")
                elif k == "~":
                    parts.append("~")
                else:
                    raise MErr("user", who, Str("unknown format directive `%s`" % k))
            if need != len(args):
                raise MErr("user", who, Str("format string requires %d argument, given %d" % (need, len(args))))
            it = iter(args)
            return "".join(x if isinstance(x, str) else self.wr(next(it), x[0]) for x in parts)
        defp("format", lambda f, *a: Str(do_fmt("format", f, a)), 1, None)

        def printf(f, *a):
            self.emit(self.out_port, do_fmt("printf", f, a))
            return VOID
        defp("printf", printf, 1, None)

        def fprintf(p, f, *a):
            outp("fprintf", p, "output port?")
            self.emit(p, do_fmt("fprintf", f, a))
            return VOID
        defp("fprintf", fprintf, 2, None)

        # ---- syntax
        defp("datum->syntax", to_stx, 1)

        def sx(who, x):
            if not isinstance(x, Stx):
                contract(who, "syntax?", x)
            return x
        defp("syntax-e", lambda x: sx("syntax-e", x).e, 1)
        defp("syntax->datum", lambda x: strip(sx("syntax->datum", x)), 1)

        def s2l(x):
            sx("syntax->list", x)
            e, out = x.e, []
            while True:
                if isinstance(e, Stx):
                    e = e.e
                    continue
                if isinstance(e, Pair):
                    out.append(e.a)
                    e = e.d
                    continue
                break
            return lst(out) if e is NIL else False
        defp("syntax->list", s2l, 1)

        # ---- procedures, errors
        def cwv(p, c):
            v = self.force(p, [])
            return Tail(c, list(v) if isinstance(v, MV) else [v])
        defp("call-with-values", cwv, 2)

        def rename(p, i):
            if not is_proc(p):
                contract("procedure-rename", "procedure?", p)
            if not isinstance(i, Sym):
                contract("procedure-rename", "symbol?", i)
            if isinstance(p, Prim):
                return Prim(p.name, p.fn, p.lo, p.hi)
            return Closure(p.clauses, p.env)
        defp("procedure-rename", rename, 2)

        def error(who, msg, *irr):
            if not (isinstance(who, (Sym, Str)) or who is False):
                contract("error", "symbol? or string? or #f", who)
            if not isinstance(msg, Str):
                contract("error", "string?", msg)
            raise MErr("user", who, msg, *irr)
        defp("error", error, 2, None)
        defp("raise", lambda x: self.do_raise(x), 1)

    def skip(self):
        raise Skip()

    def do_raise(self, x):
        raise MErr("uncaught", x)

    def wr(self, x, disp):
        """the Scheme-level writers; record writers are honoured"""
        if isinstance(x, Rec) and x.rtd.writer is not None:
            p = Port("string")
            self.force(x.rtd.writer, [x, p, disp])
            return p.buf
        if isinstance(x, Pair):
            out = ["("]
            first = True
            while isinstance(x, Pair):
                if not first:
                    out.append(" ")
                first = False
                out.append(self.wr(x.a, disp))
                x = x.d
            if x is not NIL:
                out.append(" . " + self.wr(x, disp))
            return "".join(out) + ")"
        if isinstance(x, Vec):
            return "#(" + " ".join(self.wr(y, disp) for y in x.v) + ")"
        if isinstance(x, Box):
            return "#&" + self.wr(x.v, disp)
        return write(x, disp)
