#!/usr/bin/env python3
import _p
import random
import vp, mon, core
from sexp import *
from refeval import *
from refeval import Tail
from mon import Q

RULE = ("random programs over several environments (base, empty, copies, partial copies): definitions, assignments, closures that cross environments, evaluations nested in "
        "evaluations, in callbacks of primitives and in error handlers, errors handled by handlers that return, environment procedures, environments of thousands of names; "
        "a case is one program compared with a model of environments")
S = Sym
NAMES = "a b c d f g h car list not k0 k1".split()
ENVS = "e0 e1 e2 e3 e4".split()


class EnvV(Env):
    """an environment object; also the root of the scope of the procedures made in it"""
    __slots__ = ()

    def written(self):
        return "#<environment>"


class Dyn(Env):
    """the root of the scope of top-level code: whatever environment is current"""
    __slots__ = ("it",)

    def __init__(self, it):
        self.it, self.up = it, None

    @property
    def b(self):
        return self.it.cur.b


class Exn:
    def written(self):
        return "#<&exn>"


PATTERNS["unbound"] = rb"(E|e)rror: cannot use before initialization"
PATTERNS["setundef"] = rb"(E|e)rror: cannot set variable before its definition"
PATTERNS["syntax"] = rb"(Error in )?if: bad syntax"
PATTERNS["notenv"] = rb"eval: (type|contract) violation\n[^$]*environment\?"
HANDLED = ("user", "uncaught", "contract", "unbound", "setundef", "syntax", "notenv", "missing")


class Interp(core.FullInterp):
    def __init__(self, *a, **k):
        core.FullInterp.__init__(self, *a, **k)
        self.top.b.setdefault(S("null"), NIL)
        self.base = dict(self.top.b)
        self.cur = EnvV(dict(self.base), None)
        self.main = self.cur
        self.top = Dyn(self)
        self.handler = None
        self.evals = self.handled = self.depth = self.maxdepth = 0
        self.own()

    def ev(self, e, env, tail=False):
        # the scope of a procedure made by top-level code is the environment current at that moment
        if isinstance(e, list) and e and isinstance(e[0], Sym) and (e[0] == LAM or e[0] == CASE):
            env = self.fixed(env)
        return core.FullInterp.ev(self, e, env, tail)

    def fixed(self, env):
        if isinstance(env, Dyn):
            return self.cur
        if env is None or isinstance(env, EnvV):
            return env
        up = self.fixed(env.up)
        return env if up is env.up else Env(env.b, up)

    def handle(self, x):
        if self.handler is None or x.kind not in HANDLED:
            if self.handler is not None:
                raise Skip()
            raise x
        self.handled += 1
        return self.force(self.handler, [Exn()])

    def force(self, f, args):
        while True:
            if isinstance(f, Prim):
                if len(args) < f.lo or (f.hi is not None and len(args) > f.hi):
                    raise MErr("arity")
                self.tick()
                try:
                    r = f.fn(*args)
                except MErr as x:
                    return self.handle(x)
                if isinstance(r, Tail):
                    f, args = r.f, r.args
                    continue
                return r
            if not isinstance(f, Closure):
                raise MErr("notproc")
            f = Closure(f.clauses, f.env)
            body, env = self.enter(f, args)
            try:
                r = self.ev(body, env, True)
            except MErr as x:
                if self.handler is not None or x.kind == "setundef":
                    raise Skip()       # where a failed lookup in a procedure's body resumes is not specified
                raise
            if isinstance(r, Tail):
                f, args = r.f, r.args
                continue
            return r

    def run(self, forms):
        self.forms = 0
        for f in forms:
            try:
                v = self.ev(f, self.top)
            except MErr as x:
                return [], x
            self.out.append((write(v) if not isinstance(v, MV) else "?") + "\n")
            self.forms += 1
        self.out.append("#<end>\n")
        return [], None

    def own(self):
        def defp(name, fn, lo, hi=-1):
            self.base[S(name)] = self.cur.b[S(name)] = Prim(name, fn, lo, lo if hi == -1 else hi)

        def env(e, who):
            if not isinstance(e, EnvV):
                raise MErr("contract", who)

        def syms(l):
            xs, t = unlist(l)
            return xs

        def ev(d, *e):
            if e and not isinstance(e[0], EnvV):
                raise MErr("notenv")
            old = self.cur
            x = undatum(d)
            if x == [IF]:
                raise MErr("syntax")
            self.evals += 1
            self.depth += 1
            self.maxdepth = max(self.maxdepth, self.depth)
            if e:
                self.cur = e[0]
            try:
                try:
                    return self.ev(x, self.top)
                except MErr as y:
                    if self.handler is not None and not isinstance(x, Sym) and not (x[0] == SET and not isinstance(x[2], (list, Sym))):
                        raise Skip()   # likewise
                    return self.handle(y)
            finally:
                self.depth -= 1
                if e:
                    self.cur = old
        defp("eval", ev, 1, 2)
        defp("environment?", lambda x: isinstance(x, EnvV), 1)
        defp("make-empty-environment", lambda: EnvV({}, None), 0)
        defp("make-base-environment", lambda: EnvV(dict(self.base), None), 0)

        def copy(e, m=True, l=None):
            env(e, "copy-environment")
            ks = e.b if l is None else syms(l)
            return EnvV({k: e.b[k] for k in ks if k in e.b}, None)
        defp("copy-environment", copy, 1, 3)
        defp("environment-symbols", lambda e: (env(e, ""), lst(list(e.b)))[1], 1)

        def ref(e, k, *fail):
            env(e, "environment-ref")
            if k in e.b:
                return e.b[k]
            if not fail:
                raise MErr("missing", "environment-ref", "key", k, e)
            return Tail(fail[0], []) if isinstance(fail[0], (Prim, Closure)) else fail[0]
        defp("environment-ref", ref, 2, 3)

        def set_(e, k, v):
            env(e, "environment-set!")
            e.b[k] = v
            return VOID
        defp("environment-set!", set_, 3)

        def cur(*e):
            if not e:
                return self.cur
            env(e[0], "current-environment")
            self.cur = e[0]
            return VOID
        defp("current-environment", cur, 0, 1)

        def handler(*h):
            if not h:
                return self.handler
            self.handler = h[0]
            return VOID
        defp("current-error-handler", handler, 1)


class Gen13:
    def __init__(self, r):
        self.r = r
        self.nenv = 0

    def env(self):
        return S(self.r.choice(ENVS[:max(1, self.nenv)]))

    def name(self):
        return S(self.r.choice(NAMES))

    def lit(self):
        r = self.r
        return r.choice([r.randrange(100), Q(S(r.choice("xyz"))), r.randrange(100), True, False, Q([1, 2])])

    def quoted(self, d, **k):
        return Q(self.e(d - 1, **k))

    def e(self, d, top=True, scope=()):
        r = self.r
        if d <= 0:
            return r.choice([self.lit, self.name, self.name, lambda: [S("environment-ref"), self.env(), Q(self.name()), Q(S("none"))]])()
        sub = lambda **k: self.e(d - 1, **dict(dict(top=top, scope=scope), **k))
        k = r.randrange(26)
        if k < 2:
            return [S("vector"), sub(), sub()]
        if k == 2:
            return [S("cons"), sub(), [S("vector"), sub(), sub(), sub()]]
        if k == 3:
            return [LETV, [[[self.name()], sub()]], sub()]
        if k == 4 and top:
            return [BEGIN, [DEF, [self.name()], sub()], sub()]
        if k == 5:
            n = self.name()
            return [BEGIN, [SET, n, sub()], n]
        if k in (6, 7, 8, 9):
            return [EVAL, Q(self.e(d - 1, top=True)), self.env()]
        if k == 10:
            return [S("vector"), [EVAL, Q(self.e(d - 1, top=True))], self.name()]
        if k == 11:
            return [EVAL, [S("cons"), Q(S("vector")), [S("cons"), Q(self.name()), Q([self.e(d - 2, top=True)])]], self.env()]
        if k == 12:
            return [S("environment-ref"), self.env(), Q(self.name())] + r.choice([[Q(S("none"))], [[LAM, [], sub(top=False)]], [7]])
        if k in (13, 14):
            return [S("environment-set!"), self.env(), Q(self.name()), sub()]
        if k == 15:
            return [[LAM, [self.name()], sub(top=False)], sub()]
        if k == 16:
            return [S("map"), [LAM, [self.name()], sub(top=False)], Q([1, 2])]
        if k == 17:
            return [BEGIN, [S("for-each"), [LAM, [S("u")], [S("environment-set!"), self.env(), Q(self.name()), [S("vector"), S("u"), sub(top=False)]]], Q([1, 2])], sub()]
        if k == 18:
            return [S("eq?"), [S("current-environment")], self.env()]
        if k == 19:
            return [CWV, [LAM, [], [EVAL, Q([VALUES, self.e(d - 2), self.e(d - 2)]), self.env()]], S("vector")]
        if k == 20:
            return [APPLY, EVAL, [S("cons"), Q(self.e(d - 1, top=True)), [S("cons"), self.env(), S("null")]]]
        if k == 21:
            return [LETV, [[[S("pr")], [LAM, [S("z")], [S("vector"), S("z"), self.name(), sub(top=False)]]]],
                    [BEGIN, [S("environment-set!"), self.env(), Q(S(r.choice("fgh"))), S("pr")], [S("pr"), 1]]]
        if k == 22:
            return [LETV, [[[S("pr")], [S("environment-ref"), self.env(), Q(S(r.choice("fgh"))), False]]],
                    [IF, [S("procedure?"), S("pr")], [S("vector"), [S("pr"), sub()]], Q(S("noproc"))]]
        if k == 23:
            return [S("vector"), r.choice([[S("error"), Q(S("who")), Str("bad")], [S("cdr"), 7], [S("raise"), sub(top=False)], [EVAL, Q([IF]), self.env()],
                                           [EVAL, Q(self.name()), self.env()], [EVAL, Q([SET, S("nowhere"), 1]), self.env()], [EVAL, Q(S("u0")), 17],
                                           [S("environment-ref"), self.env(), Q(S("nowhere"))]]), sub()] if r.random() < .8 else self.env_switch(sub)
        if k == 24:
            return [EVAL, Q([EVAL, Q(self.e(d - 2)), self.env()]), self.env()]
        return [IF, sub(), sub(), sub()]

    def env_switch(self, sub):
        return [EVAL, Q([BEGIN, [S("current-environment"), self.env()], [S("vector"), self.name(), [S("eq?"), [S("current-environment")], self.env()]]]), self.env()]

    def handler(self):
        r = self.r
        return [S("current-error-handler"), [LAM, [S("x")], r.choice([
            Q(S("handled")), [S("vector"), Q(S("h")), self.e(2, top=False)],
            [BEGIN, [S("environment-set!"), [S("current-environment")], Q(self.name()), 55], Q(S("marked"))],
            [EVAL, Q(self.e(2)), self.env()],
            [LETV, [[[S("was")], [S("eq?"), [S("current-environment")], self.env()]]], [S("vector"), S("was")]]])]]

    def program(self):
        r = self.r
        f = []
        prims = "vector cons eval list values environment-ref environment-set! map for-each eq? current-environment apply null procedure? error cdr raise call-with-values".split()
        ln = [S("length"), [S("environment-symbols"), S("env")]]
        f.append([DEF, [S("base")], [S("length"), [S("environment-symbols"), [S("make-base-environment")]]]])
        f.append([DEF, [S("seen")], [LAM, [S("env")], [LETV, [[[S("n")], ln]], [IF, [S("<"), S("n"), 100], S("n"), [S("-"), S("n"), S("base")]]]]])
        f.append([DEF, [S("vals")], [LAM, [S("env")], [S("map"), [LAM, [S("n")], [S("environment-ref"), S("env"), S("n"), Q(S("none"))]],
                                                      Q([S(n) for n in NAMES])]]])
        ne = r.choice([2, 3, 4, 5])
        for n in r.sample(NAMES, 4):
            f.append([DEF, [S(n)], self.lit()])
        for i in range(ne):
            k = r.randrange(6)
            mk = ([S("make-base-environment")] if k == 0 else [S("make-empty-environment")] if k == 1 else
                  [S("copy-environment"), S(ENVS[r.randrange(i)]) if i else [S("current-environment")]] if k == 2 else
                  [S("copy-environment"), [S("current-environment")], r.random() < .5] if k == 3 else
                  [S("copy-environment"), [S("current-environment")], True, Q([S(x) for x in prims + r.sample(NAMES, 4) + ["nosuch", "cons"]])] if k == 4 else
                  [S("current-environment")])
            f.append([DEF, [S(ENVS[i])], mk])
        self.nenv = ne
        for i in range(ne):
            for j in range(ne):
                f.append([S("environment-set!"), S(ENVS[i]), Q(S(ENVS[j])), S(ENVS[j])])
            f.append([S("for-each"), [LAM, [S("n")], [S("environment-set!"), S(ENVS[i]), S("n"), [S("environment-ref"), [S("current-environment")], S("n")]]], Q([S(p) for p in prims])])
        keep = r.choice([1, 1, 1, .95, .5])
        for i in range(ne):
            if r.random() < .95:
                f.append([S("for-each"), [LAM, [S("n")], [S("environment-set!"), S(ENVS[i]), S("n"), [S("vector"), i, S("n")]]],
                          Q([S(n) for n in NAMES if r.random() < keep])])
        if r.random() < .7:
            f.append(self.handler())
        for _ in range(r.choice([4, 8, 12])):
            f.append([S("vector"), [EVAL, Q(self.e(r.choice([2, 3, 4, 5]))), self.env()]])
            if r.random() < .3:
                f.append([S("vector"), [S("eq?"), [S("current-environment")], self.env()]])
            if r.random() < .1:
                f.append(self.handler())
        for i in range(ne):
            f.append([S("seen"), S(ENVS[i])])
            f.append([S("vals"), S(ENVS[i])])
        f.append([S("vals"), [S("current-environment")]])
        f.append([S("eq?"), [S("current-environment")], S("e0")])
        return f


def history(r, n):
    """one environment against a finite map: names of every kind, growth, copies"""
    forms, out = [], []

    def f(x, v):
        forms.append(x)
        out.append(write(v) + "\n")
    f([DEF, [S("e0")], [S("make-empty-environment")]], VOID)
    f([DEF, [S("count")], [LAM, [S("e")], [S("length"), [S("environment-symbols"), S("e")]]]], VOID)
    m = {"e0": {}}
    k = r.choice([30, 300, 3000])
    names = ["n%d" % i for i in range(k)]
    for i in range(n):
        e = r.choice(list(m))
        d = m[e]
        c = r.randrange(9)
        if c < 3:
            # many at once
            b = [(x, r.randrange(1000)) for x in r.sample(names, min(k, r.choice([1, 5, 40, 400])))]
            if r.random() < .5:
                f([BEGIN] + [[S("environment-set!"), S(e), Q(S(x)), v] for x, v in b], VOID)
            else:
                f([EVAL, Q([BEGIN] + [[DEF, [S(x)], v] for x, v in b]), S(e)], VOID)
            d.update(b)
        elif c == 3 and len(m) < 6:
            w = "e%d" % len(m)
            m[w] = dict(d)
            f([DEF, [S(w)], [S("copy-environment"), S(e)] + r.choice([[], [True], [False]])], VOID)
        elif c == 4 and len(m) < 6:
            w = "e%d" % len(m)
            ks = r.sample(names, min(k, r.choice([0, 1, 10, 60])))
            m[w] = {x: d[x] for x in ks if x in d}
            f([DEF, [S(w)], [S("copy-environment"), S(e), r.random() < .5, Q([S(x) for x in ks])]], VOID)
        elif c == 5:
            f([S("count"), S(e)], len(d))
        elif c == 6:
            ks = r.sample(names, min(k, 30))
            f([S("map"), [LAM, [S("n")], [S("environment-ref"), S(e), S("n"), False]], Q([S(x) for x in ks])], lst([d.get(x, False) for x in ks]))
        elif c == 7 and d:
            x = r.choice(list(d))
            v = r.randrange(1000)
            f([EVAL, Q([SET, S(x), v]), S(e)], VOID)
            d[x] = v
        else:
            x = r.choice(list(d)) if d else None
            if x:
                f([EVAL, Q(S(x)), S(e)], d[x])
    for e, d in m.items():
        f([S("count"), S(e)], len(d))
        ks = sorted(d)
        for i in range(0, len(ks), 500):
            f([S("map"), [LAM, [S("n")], [S("environment-ref"), S(e), S("n"), False]], Q([S(x) for x in ks[i:i + 500]])], lst([d[x] for x in ks[i:i + 500]]))
    return forms, ("".join(out) + "#<end>\n", None), "history"


def deep(r):
    """evaluations nested to a great depth, with expectations computed directly"""
    progs = []
    n = r.choice([200, 1000, 4000])
    E = [S("e0"), S("e1")]
    pre = [[DEF, E[:1], [S("current-environment")]], [DEF, E[1:], [S("copy-environment"), E[0]]],
           [S("environment-set!"), E[0], Q(S("w")), 10], [S("environment-set!"), E[1], Q(S("w")), 20]]
    # each level runs in the other environment, reads w before and after
    go = [LAM, [S("n")], [IF, [S("="), S("n"), 0], 0, [LETV, [[[S("a")], [EVAL, Q(S("w"))]]],
          [LETV, [[[S("b")], [EVAL, [S("list"), Q(S("go")), [S("sub1"), S("n")]], [IF, [S("eq?"), [S("current-environment")], S("e0")], S("e1"), S("e0")]]]],
           [IF, [S("="), S("a"), [EVAL, Q(S("w"))]], [S("+"), S("a"), S("b")], Q(S("changed"))]]]]]
    body = pre + [[DEF, [S("go")], go]] + [[S("environment-set!"), e, Q(S(x)), S(x)] for e in E for x in ("e0", "e1", "go")]
    want = sum(10 if i % 2 == 0 else 20 for i in range(n))
    progs.append((body + [[S("go"), n], [S("eq?"), [S("current-environment")], S("e0")]], "#<void>\n" * len(body) + "%d\n#t\n#<end>\n" % want))
    # loop of tail evaluations in the current environment
    m = r.choice([3000, 20000])
    loop = [DEF, [S("loop")], [LAM, [S("n"), S("acc")], [IF, [S("="), S("n"), 0], S("acc"), [EVAL, [S("list"), Q(S("loop")), [S("sub1"), S("n")], [S("add1"), S("acc")]]]]]]
    progs.append(([loop, [S("loop"), m, 0]], "#<void>\n%d\n#<end>\n" % m))
    # an error at the bottom, handled there: every level goes on and restores its environment
    go2 = [LAM, [S("n")], [IF, [S("="), S("n"), 0], [S("vector"), [S("error"), Q(S("w")), Str("m")], [EVAL, Q(S("w"))]], [LETV, [[[S("a")], [EVAL, Q(S("w"))]]],
           [LETV, [[[S("b")], [EVAL, [S("list"), Q(S("go")), [S("sub1"), S("n")]], [IF, [S("eq?"), [S("current-environment")], S("e0")], S("e1"), S("e0")]]]],
            [IF, [S("="), S("a"), [EVAL, Q(S("w"))]], S("b"), Q(S("changed"))]]]]]
    body = pre + [[DEF, [S("go")], go2]] + [[S("environment-set!"), e, Q(S(x)), S(x)] for e in E for x in ("e0", "e1", "go")] + [[S("current-error-handler"), [LAM, [S("x")], [EVAL, Q(S("w"))]]]]
    w = 10 if n % 2 == 0 else 20
    progs.append((body + [[S("go"), n], [S("eq?"), [S("current-environment")], S("e0")]], "#<void>\n" * len(body) + "#(%d %d)\n#t\n#<end>\n" % (w, w)))
    return [(f, (o, None), "deep") for f, o in progs]


def main():
    ck = vp.Check("C13", RULE)
    r = random.Random(ck.rng.random())
    n = ck.n(3000, 150000)

    def make(k):
        out = []
        for i in range(k):
            forms = Gen13(r).program()
            it = Interp()
            it.limit = 25000
            try:
                _, e = it.run(forms)
            except (TooLong, Skip, RecursionError):
                ck.count("programs outside of the model")
                continue
            ck.count("evaluations in environments", it.evals)
            ck.count("errors handled", it.handled)
            ck.count("programs with nesting depth %d or more" % min(it.maxdepth, 5))
            if e is not None:
                ck.count("programs that end with an error")
            out.append((forms, ("".join(it.out), e), "model"))
        return out

    servers = [("asan", ck.server("asan")), ("plain", ck.server("plain"))]
    try:
        for base in range(0, n, 1000):
            progs = big_stack(lambda: make(min(1000, n - base)))
            for _ in range(ck.n(20, 40)):
                progs.append(history(r, r.choice([20, 60])))
                ck.count("environment histories")
            for _ in range(2):
                progs += deep(r)
                ck.count("deep nestings", 3)
            for i, (v, s) in enumerate(servers):
                mon.Programs(ck, s, v, cpu=20).run(progs[i::2] if not ck.thorough else progs)
            if len(ck.viol) > 5:
                break
    finally:
        for _, s in servers:
            s.close()
    ck.finish()


if __name__ == "__main__":
    vp.main(main)
