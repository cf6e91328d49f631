"""Reference model of the library's list, string and path procedures, on top of the core model."""
from sexp import *
from refeval import *
from core import FullInterp, contract, err, isint, is_proc, MErr
from refeval import Tail


class LibInterp(FullInterp):
    def install(self):
        super().install()
        d = self.top.b

        def defp(name, fn, lo, hi=-1):
            d[Sym(name)] = Prim(name, fn, lo, lo if hi == -1 else hi)

        def first(x):
            if not is_list(x):
                contract("first", "list?", x)
            if x is NIL:
                contract("car", "pair?", x)
            return x.a
        defp("first", first, 1)
        for k, n in enumerate("second third fourth fifth sixth seventh eighth ninth tenth".split()):
            def nth(x, k=k + 1, n=n):
                if not is_list(x):
                    contract(n, "list?", x)
                xs = unlist(x)[0]
                if len(xs) <= k:
                    raise MErr("anyerr", n + ": list contains too few elements")
                return xs[k]
            defp(n, nth, 1)

        def index(who, k):
            if not (isint(k) and k >= 0):
                contract(who, "non-negative-integer?", k)

        def list_ref(x, k):
            index("list-ref", k)
            if not is_list(x):
                raise Skip()
            xs = unlist(x)[0]
            if k >= len(xs):
                raise MErr("anyerr", "list-ref: index out of bounds")
            return xs[k]
        defp("list-ref", list_ref, 2)

        def list_set(x, k, v):
            index("list-set", k)
            if not is_list(x):
                raise Skip()
            xs = unlist(x)[0]
            if k >= len(xs):
                raise MErr("anyerr", "list-set: index out of bounds")
            p = x
            for _ in range(k + 1):
                p = p.d
            return lst(xs[:k] + [v], p)
        defp("list-set", list_set, 3)
        defp("cons*", lambda *a: lst(a[:-1], a[-1]), 1, None)

        def walk(who, x):
            """elements one at a time; an improper tail is reported when it is reached"""
            xs, t = unlist(x)
            for y in xs:
                yield y
            if t is not NIL:
                if who in ("member", "remove", "remove*"):
                    contract(who, "list?", t)
                contract(who, "list?", x)

        def member(k, x):
            for y in walk("member", x):
                if self.equal(y, k):
                    return y
            return False
        defp("member", member, 2)
        defp("remove", lambda k, x: lst([y for y in list(walk("remove", x)) if not self.equal(y, k)]), 2)

        def removes(ks, x):
            if not is_list(ks):
                contract("remove*", "list?", ks)
            if not is_list(x):
                raise Skip()
            ks = unlist(ks)[0]
            if not ks:
                return x
            return lst([y for y in unlist(x)[0] if not any(self.equal(y, k) for k in ks)])
        defp("remove*", removes, 2)

        def fl(f, x):
            out = []
            for y in walk("filter", x):
                if self.apply1(f, y) is not False:
                    out.append(y)
            return lst(out)
        defp("filter", fl, 2)

        def foldl(f, acc, x):
            for y in walk("foldl", x):
                acc = self.apply1(f, acc, y)
            return acc
        defp("foldl", foldl, 3)

        def foldr(f, acc, x):
            xs = list(walk("foldr", x))
            for y in reversed(xs):
                acc = self.apply1(f, acc, y)
            return acc
        defp("foldr", foldr, 3)

        def assoc(k, x):
            y = x
            while isinstance(y, Pair):
                if not isinstance(y.a, Pair):
                    contract("assoc", "list?", x)
                if self.equal(k, y.a.a):
                    return y.a
                y = y.d
            if y is not NIL:
                contract("assoc", "list?", x)
            return False
        defp("assoc", assoc, 2)

        def index_of(k, x):
            if not is_list(x):
                raise Skip()
            for i, y in enumerate(unlist(x)[0]):
                if self.equal(k, y):
                    return i
            return False
        defp("index-of", index_of, 2)

        def substring(s, a, b):
            if not isinstance(s, Str):
                contract("substring", "string?", s)
            for x in (a, b):
                index("substring", x)
            if b > len(s.s):
                raise MErr("range", "substring", "end", 0, len(s.s) + 1, b, s)
            if a > b:
                raise MErr("range", "substring", "start", 0, b + 1, a, s)
            return Str(s.s[a:b])
        defp("substring", substring, 3)
