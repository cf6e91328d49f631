#!/usr/bin/env python3
import _p
import random
import vp, mon, core, libm
from sexp import *
from refeval import *
from mon import Q

RULE = ("random trees of record types (depth to 10, 0 to 60 fields per type, sealed and opaque types, shared names and uids) with instances: every accessor, mutator and "
        "predicate applied to every instance, histories of mutations with the whole store printed, descriptors questioned, wrong uses; random define-record-type forms of the "
        "library (all field forms, parents, protocols, writers, generic methods); a case is one program compared with a model of records")
S = Sym


class Types:
    def __init__(self, r, big=False):
        self.r, self.big = r, big
        self.types, self.recs, self.forms = [], [], []

    def f(self, x):
        self.forms.append(x)

    def value(self):
        r = self.r
        if self.recs and r.random() < .25:
            return S(r.choice(self.recs)[0])
        return r.choice([r.randrange(1000), Q(S(r.choice("uvw"))), Str(r.choice(["", "s"])), Q([1, S("z")]), False, True, Char("c")])

    def chain(self, t):
        """(accessor variable, mutator variable, index in the instance) of t and its ancestors, ancestors first"""
        out = []
        if t["parent"] is not None:
            out = self.chain(self.types[t["parent"]])
        return out + [(t["get"][i], t["set"][i]) for i in range(t["n"])]

    def anc(self, t):
        out = [t]
        while t["parent"] is not None:
            t = self.types[t["parent"]]
            out.append(t)
        return out

    def new_type(self):
        r = self.r
        k = len(self.types)
        par = [i for i, t in enumerate(self.types) if not t["sealed"]]
        parent = r.choice(par) if par and r.random() < .75 else None
        if par and r.random() < .4:
            parent = par[-1]
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 8]) if not self.big else r.choice([0, 1, 7, 30, 60])
        t = dict(v="t%d" % k, parent=parent, n=n, sealed=r.random() < .12, opaque=r.random() < .2, mk="mk%d" % k, is_="is%d" % k,
                 get=["g%d_%d" % (k, i) for i in range(n)], set=["s%d_%d" % (k, i) for i in range(n)])
        names = r.sample(["x", "y", "z", "a", "b", "c", "d", "e", "name", "car"], n) if n <= 10 else ["f%d" % i for i in range(n)]
        fields = Vec([[S(r.choice(["mutable", "mutable", "immutable"])), S(x)] for x in names])
        self.f([DEF, [S(t["v"])], [S("make-record-type-descriptor"), Q(S(r.choice(["pt", "node", "t%d" % k]))), S("t%d" % parent) if parent is not None else False,
                                   r.choice([False, False, Q(S("uid1"))]), t["sealed"], t["opaque"], Q(fields)]])
        tv = S(t["v"])
        order = list(range(n))
        r.shuffle(order)
        self.f([DEF, [S(t["mk"])], [S("record-constructor"), tv]])
        self.f([DEF, [S(t["is_"])], [S("record-predicate"), tv]])
        for i in order:
            self.f([DEF, [S(t["get"][i])], [S("record-accessor"), tv, i]])
            self.f([DEF, [S(t["set"][i])], [S("record-mutator"), tv, i]])
        self.types.append(t)
        if r.random() < .5:
            self.describe(t)

    def describe(self, t):
        tv = S(t["v"])
        self.f([S("vector")] + [[S("record-type-" + q), tv] for q in ("name", "uid", "sealed?", "opaque?", "field-names")] +
               [[S("eq?"), [S("record-type-parent"), tv], S("t%d" % t["parent"]) if t["parent"] is not None else False], [S("record-type-descriptor?"), tv], [S("record?"), tv]])
        if t["n"]:
            self.f([S("map"), [LAM, [S("i")], [S("record-type-field-mutable?"), tv, S("i")]], Q(list(range(t["n"])))])

    def new_rec(self):
        r = self.r
        t = r.choice(self.types)
        v = "r%d" % len(self.recs)
        args = [self.value() for _ in self.chain(t)]
        e = [S(t["mk"])] + args if len(args) < 100 and r.random() < .7 else [S("apply"), S(t["mk"]), [S("list")] + args]
        self.f([DEF, [S(v)], e])
        self.recs.append((v, t))

    def dump(self, rec):
        v, t = rec
        for i in range(0, len(self.chain(t)), 40):
            self.f([S("list")] + [[S(g), S(v)] for g, _ in self.chain(t)[i:i + 40]])

    def step(self):
        r = self.r
        k = r.randrange(12)
        if k == 0 or not self.types:
            self.new_type()
        elif k <= 2 or not self.recs:
            self.new_rec()
        elif k <= 6:
            v, t = r.choice(self.recs)
            c = self.chain(t)
            if c:
                g, s = r.choice(c)
                self.f([S(s), S(v), self.value()])
                if r.random() < .4:
                    self.dump((v, t))
        elif k == 7:
            v, t = r.choice(self.recs)
            self.f([S("list")] + [[S(x["is_"]), S(v)] for x in self.types] + [[S("record?"), S(v)], [S("record-type-descriptor?"), S(v)]])
        elif k == 8:
            v, t = r.choice(self.recs)
            if not t["opaque"]:
                self.f([S("list")] + [[S("eq?"), [S("record-rtd"), S(v)], S(x["v"])] for x in self.types])
        elif k == 9:
            self.describe(r.choice(self.types))
        elif k == 10:
            t = r.choice(self.types)
            self.f([S("map"), S(t["is_"]), [S("list")] + [S(v) for v, _ in self.recs[-20:]] + [5, Q([]), S(t["v"]), S(t["mk"]), Q(Vec([1])), Str("q"), [S("box"), 1]]])
        else:
            # a second set of procedures of the same type works on the same instances
            v, t = r.choice(self.recs)
            if t["n"]:
                i = r.randrange(t["n"])
                w = self.value()
                self.f([BEGIN, [[S("record-mutator"), S(t["v"]), i], S(v), w], [S("list"), [[S("record-accessor"), S(t["v"]), i], S(v)], [S(t["get"][i]), S(v)]]])

    def wrong(self):
        """one wrong use"""
        r = self.r
        t = r.choice(self.types)
        o = r.choice(self.types)
        bad = [5, Q(S("x")), Q(Vec([1, 2])), Q([]), S(t["v"]), S("car")] + [S(v) for v, rt in self.recs if t not in self.anc(rt)] * 3
        k = r.randrange(9)
        tv = S(t["v"])
        n = len(self.chain(t))
        if k <= 1 and t["n"]:
            return [S(r.choice(t["get"])), r.choice(bad)]
        if k == 2 and t["n"]:
            return [S(r.choice(t["set"])), r.choice(bad), 1]
        if k == 3:
            m = r.choice([x for x in (0, n - 1, n + 1, n + 2, t["n"]) if x >= 0 and x != n] or [n + 1])
            return [S(t["mk"])] + list(range(m))
        if k == 4:
            return [S(r.choice(["record-accessor", "record-mutator", "record-type-field-mutable?"])), tv, r.choice([t["n"], t["n"] + 1, n + 5])]
        if k == 5:
            return [S("make-record-type-descriptor"), Q(S("q")), tv, False, False, False, Q(Vec([]))] if t["sealed"] else \
                [S("make-record-type-descriptor"), Q(S("q")), r.choice([5, True, Q(S("p"))]), False, False, False, Q(Vec([]))]
        if k == 6:
            return [S("make-record-type-descriptor"), Q(S("q")), False, False, False, False,
                    Q(r.choice([Vec([[S("mutable"), S("x")], [S("immutable"), S("x")]]), Vec([S("x")]), Vec([[S("mut"), S("x")]]), Vec([[S("mutable"), 5]]), Vec([[S("mutable")]])]))]
        if k == 7:
            return [S("record-rtd"), r.choice([5, tv] + [S(v) for v, rt in self.recs if rt["opaque"]])]
        return [S(r.choice(["record-constructor", "record-predicate", "record-type-name", "record-type-fields" if 0 else "record-type-parent"])), r.choice([5, S(t["mk"])] + [S(v) for v, _ in self.recs])]

    def program(self):
        r = self.r
        for _ in range(r.choice([1, 2, 4, 9])):
            self.new_type()
        for _ in range(r.choice([1, 3, 6])):
            self.new_rec()
        for _ in range(r.choice([10, 25, 50])):
            self.step()
        for x in self.recs:
            self.dump(x)
        self.f([S("list")] + [[S("list")] + [[S(t["is_"]), S(v)] for t in self.types] for v, _ in self.recs])
        if r.random() < .6:
            self.f(self.wrong())
        return self.forms


# ---------------------------------------------------------------- the library's define-record-type

class LibTypes:
    """a module of define-record-type forms; the expected output is computed along"""

    def __init__(self, r):
        self.r = r
        self.forms, self.out, self.types, self.recs = [], [], [], []
        self.err = None

    def pr(self, e, v):
        self.forms.append([BEGIN, [S("write"), e], [S("newline")]])
        self.out.append(v + "\n")

    def val(self):
        r = self.r
        v = r.choice([r.randrange(1000), S(r.choice("uvw")), Str(r.choice(["", "s"])), False])
        return v

    def new(self):
        r = self.r
        k = len(self.types)
        name = r.choice(["pt", "nd", "rec"]) + str(k)
        par = [t for t in self.types if not t["sealed"]]
        parent = r.choice(par) if par and r.random() < .6 else None
        full = r.random() < .4
        mk, is_ = ("new-%d" % k, "an-%d?" % k) if full else ("make-" + name, name + "?")
        fields, specs = [], []
        for i, x in enumerate(r.sample(["x", "y", "z", "a", "b", "name", "val", "next"], r.choice([0, 1, 2, 3, 5]))):
            c = r.randrange(5)
            acc, mut = name + "-" + x, name + "-" + x + "-set!"
            if c == 0:
                specs.append(S(x))
                mut = None
            elif c == 1:
                specs.append([S("immutable"), S(x)])
                mut = None
            elif c == 2:
                specs.append([S("mutable"), S(x)])
            elif c == 3:
                acc, mut = "get%d-%d" % (k, i), None
                specs.append([S("immutable"), S(x), S(acc)])
            else:
                acc, mut = "get%d-%d" % (k, i), "put%d-%d" % (k, i)
                specs.append([S("mutable"), S(x), S(acc), S(mut)])
            fields.append((x, acc, mut, mut is not None))
        t = dict(name=name, parent=parent, mk=mk, is_=is_, own=fields, fields=(parent["fields"] if parent else []) + fields, anc=[], sealed=r.random() < .15,
                 opaque=r.random() < .15, proto=None, uid=r.choice([None, None, "u1"]), writer=parent["writer"] if parent else None, eq=parent["eq"] if parent else None, eqid=parent["eqid"] if parent else None, wshown=None)
        t["anc"] = [t] + (parent["anc"] if parent else [])
        n = len(t["fields"])
        cls = []
        if fields or r.random() < .5:
            cls.append([S("fields")] + specs)
        if parent:
            cls.append([S("parent"), S(parent["name"])])
        if t["sealed"] or r.random() < .1:
            cls.append([S("sealed"), t["sealed"]])
        if t["opaque"] or r.random() < .1:
            cls.append([S("opaque"), t["opaque"]])
        if t["uid"]:
            cls.append([S("uid"), Q(S(t["uid"]))])
        p = r.randrange(6)
        if p == 0 and n:
            # arguments reversed
            vs = [S("p%d" % i) for i in range(n)]
            cls.append([S("protocol"), [LAM, [S("c")], [LAM, vs, [S("c")] + vs[::-1]]]])
            t["proto"] = lambda a: (a[::-1])
            t["arity"] = n
        elif p == 1 and n:
            # defaults for all but the first
            cls.append([S("protocol"), [LAM, [S("c")], [LAM, [S("p")], [S("c"), S("p")] + [100 + i for i in range(n - 1)]]]])
            t["proto"] = lambda a, n=n: a + [100 + i for i in range(n - 1)]
            t["arity"] = 1
        else:
            t["proto"] = lambda a: a
            t["arity"] = n
        if r.random() < .25 and not t["opaque"]:
            t["writer"] = "<%s " % name
            shown = [S(f[1]) for f in t["own"]][:1]
            cls.append([S("methods"), S("gen:custom-write"), [LAM, [S("v"), S("port"), S("mode")], [S("put-string"), S("port"), Str(t["writer"])]] +
                        [[S("fprintf") if 0 else S("write"), [g, S("v")], S("port")] for g in shown] + [[S("put-string"), S("port"), Str(">")]]])
            t["wshown"] = len(t["fields"]) - len(t["own"]) if shown else None
        elif parent:
            t["wshown"] = parent.get("wshown")
        if r.random() < .3 and fields:
            g = S(fields[0][1])
            t["eq"] = len(t["fields"]) - len(fields)
            cls.append([S("methods"), S("gen:equal+hash"), [LAM, [S("a"), S("b"), S("eq")], [S("eq"), [g, S("a")], [g, S("b")]]],
                        [LAM, [S("a"), S("h")], [S("h"), [g, S("a")]]]])
            t["eqid"] = name
        elif parent:
            t["eqid"] = parent.get("eqid")
        r.shuffle(cls)
        self.forms.append([S("define-record-type"), [S(name), S(mk), S(is_)] if full else S(name)] + cls)
        self.types.append(t)
        self.pr([S("record-type-field-names"), S(name)], write(Vec([S(f[0]) for f in fields])))
        self.pr([S("list"), [S("record-type-name"), S(name)], [S("record-type-uid"), S(name)], [S("record-type-sealed?"), S(name)], [S("record-type-opaque?"), S(name)],
                 [S("eq?"), [S("record-type-parent"), S(name)], S(parent["name"]) if parent else False]],
                write(lst([S(name), S(t["uid"]) if t["uid"] else False, t["sealed"], t["opaque"], True])))
        if fields:
            self.pr([S("map"), [LAM, [S("i")], [S("record-type-field-mutable?"), S(name), S("i")]], Q(list(range(len(fields))))], write(lst([f[3] for f in fields])))

    def rec(self):
        r = self.r
        t = r.choice(self.types)
        a = [self.val() for _ in range(t["arity"])]
        v = "r%d" % len(self.recs)
        self.forms.append([S("define"), S(v), [S(t["mk"])] + [Q(x) for x in a]])
        self.recs.append((v, t, t["proto"](list(a))))

    def shown(self, rc):
        v, t, vals = rc
        if t["writer"] is None:
            return None
        return t["writer"] + (write(vals[t["wshown"]]) if t["wshown"] is not None else "") + ">"

    def step(self):
        r = self.r
        rc = r.choice(self.recs)
        v, t, vals = rc
        k = r.randrange(6)
        if k == 0:
            self.pr([S("list")] + [[S(f[1]), S(v)] for f in t["fields"]], write(lst(vals)))
        elif k <= 2:
            ms = [i for i, f in enumerate(t["fields"]) if f[2]]
            if ms:
                i = r.choice(ms)
                x = self.val()
                self.forms.append([S(t["fields"][i][2]), S(v), Q(x)])
                vals[i] = x
                self.pr([S("list")] + [[S(f[1]), S(v)] for f in t["fields"]], write(lst(vals)))
        elif k == 3:
            self.pr([S("list")] + [[S(x["is_"]), S(v)] for x in self.types] + [[S("record?"), S(v)]], write(lst([x in t["anc"] for x in self.types] + [not t["opaque"]])))
        elif k == 4:
            s = self.shown(rc)
            if s is not None:
                self.pr([S("list"), 1, S(v)], "(1 " + s + ")")
        else:
            w, u, uv = r.choice(self.recs)
            if t["eq"] is None and u["eq"] is None:
                self.pr([S("equal?"), S(v), S(w)], write(v == w))
            elif v != w and t["eqid"] == u["eqid"] and t["eq"] == u["eq"]:
                e = mon_equal(vals[t["eq"]], uv[u["eq"]])
                self.pr([S("equal?"), S(v), S(w)], write(e))
                if e:
                    self.pr([S("="), [S("equal-hash"), S(v)], [S("equal-hash"), S(w)]], "#t")

    def wrong(self):
        r = self.r
        t = r.choice(self.types)
        k = r.randrange(4)
        bad = [5] + [S(v) for v, u, _ in self.recs if t not in u["anc"]] * 3
        if k <= 1 and t["own"]:
            f = r.choice(t["own"])
            self.forms.append([S("write"), [S(f[1]), r.choice(bad)]])
            return r"%s: contract violation|[^\n]*contract violation" % f[1]
        if k == 2 and t["sealed"]:
            self.forms.append([S("define-record-type"), S("child"), [S("parent"), S(t["name"])]])
            return r"[^\n]*contract violation\n  expected: non-sealed parent record"
        self.forms.append([S("write"), [S(t["mk"])] + list(range(t["arity"] + r.choice([1, 2])))])
        return r"[^\n]*arity mismatch"

    def program(self):
        r = self.r
        for _ in range(r.choice([1, 2, 3, 4])):
            self.new()
        for _ in range(4):
            self.rec()
        for _ in range(14):
            self.step()
        err = self.wrong() if r.random() < .4 else None
        return self.forms, "".join(self.out), err


def mon_equal(a, b):
    return write(a) == write(b)


def judge_lib(want, r):
    out, err = want
    if r.crashed:
        return "abnormal end: " + r.crashed
    if r.kind != "exit":
        return "did not finish: " + r.kind
    if r.out.decode("latin1") != out:
        return "output differs"
    if err is None:
        return "expected a normal end" if r.code or r.err else None
    import re
    if r.code != 1 or not re.match(err, r.err.decode("latin1"), re.S):
        return "expected the error report %s and status 1" % err


def main():
    ck = vp.Check("C14", RULE)
    r = random.Random(ck.rng.random())
    n = ck.n(1100, 40000)
    nl = ck.n(260, 6000)

    def make(k):
        out = []
        for i in range(k):
            g = Types(r, big=r.random() < .15)
            forms = g.program()
            w = mon.expect(forms, limit=400000)
            if w is None:
                ck.count("programs outside of the model")
                continue
            ck.count("record types", len(g.types))
            ck.count("instances", len(g.recs))
            ck.count("forms", len(forms))
            if w[1]:
                ck.count("wrong uses: " + w[1].kind)
            out.append((forms, w, "core"))
        return out

    servers = [("asan", ck.server("asan")), ("plain", ck.server("plain"))]
    try:
        for base in range(0, n, 1000):
            progs = big_stack(lambda: make(min(1000, n - base)))
            for i, (v, s) in enumerate(servers):
                mon.Programs(ck, s, v).run(progs[i::2] if not ck.thorough else progs)
            if len(ck.viol) > 5:
                break
    finally:
        for _, s in servers:
            s.close()
    srv = ck.library()
    try:
        for base in range(0, nl, 300):
            progs = []
            for i in range(min(300, nl - base)):
                g = LibTypes(r)
                forms, out, err = g.program()
                ck.count("define-record-type forms", len(g.types))
                ck.count("library instances", len(g.recs))
                if err:
                    ck.count("library wrong uses")
                progs.append((forms, (out, err and LibErr(err)), "library"))
            mon.LibPrograms(ck, srv).run(progs, judge=lambda w, x: judge_lib((w[0], w[1] and w[1].pat), x), key="library")
            if len(ck.viol) > 5:
                break
    finally:
        srv.close()
    ck.finish()


class LibErr:
    kind = "library"

    def __init__(self, pat):
        self.pat = pat
        self.detail = [pat]


if __name__ == "__main__":
    vp.main(main)
