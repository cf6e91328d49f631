#!/usr/bin/env python3
import _p
import random, re, os
import vp, mon, core, rdr
from sexp import *
from refeval import *
from mon import Q

RULE = ("random lambda and case-lambda procedures (with and without captured variables, obtained in many ways, renamed repeatedly) asked for arity and name "
        "and called with 0 to 14 arguments; every public procedure of the core and the library called with 0 to 8 arguments and its arity error compared with the "
        "arity it reports; a case is one procedure with its calls")
S = Sym
NONE = "none"


def arity_of(clauses):
    """normal form of the argument counts accepted: a count, or increasing counts that end with #f when any count above the last is accepted"""
    ex, least = set(), None
    for n, rest in clauses:
        if least is not None and n >= least:
            continue
        if rest:
            least = n
        else:
            ex.add(n)
    if least is not None:
        ex = {x for x in ex if x < least} | {least}
    xs = sorted(ex)
    if least is None and len(xs) == 1:
        return xs[0]
    return lst(xs, False if least is not None else NIL)


def accepts(clauses, n):
    return any(n == k or rest and n > k for k, rest in clauses)


def in_arity(a, n):
    if isinstance(a, int):
        return a == n
    xs, t = unlist(a)
    return n in xs or t is False and xs and n > xs[-1]


def is_arity(v):
    if isinstance(v, int) and not isinstance(v, bool):
        return v >= 0
    if v is NIL:
        return True
    if not isinstance(v, Pair):
        return False
    xs, t = unlist(v)
    return t in (NIL, False) and all(isinstance(x, int) and not isinstance(x, bool) and x >= 0 for x in xs) and all(a < b for a, b in zip(xs, xs[1:]))


class One:
    """one procedure: the expression that makes it, its clauses, its name"""

    def __init__(self, r, i):
        self.r, self.i = r, i
        k = r.random()
        if k < .35:
            self.clauses = [(self.count(), r.random() < .35)]
            self.lam = True
        else:
            self.clauses = [(self.count(), r.random() < .2) for _ in range(r.choice([0, 1, 2, 2, 3, 3, 4, 6, 9]))]
            self.lam = False
        self.cap = r.choice([0, 0, 1, 2, 5])
        self.name = NONE

    def count(self):
        r = self.r
        return r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 12]) if r.random() < .97 else r.choice([30, 90])

    def expr(self):
        r = self.r
        cs = []
        for j, (n, rest) in enumerate(self.clauses):
            vs = [S("a%d" % k) for k in range(n)]
            fm = lst(vs, S("rest")) if rest else lst(vs)
            if rest and not n:
                fm = S("rest")
            body = [S("list"), j] + vs + ([S("rest")] if rest else []) + [S("c%d" % k) for k in range(self.cap)]
            if self.cap and r.random() < .5:
                body = [BEGIN, [SET, S("c0"), [S("+"), S("c0"), 1]], body]
            cs.append((fm, body))
        e = [LAM, cs[0][0], cs[0][1]] if self.lam else [CASE] + [[f, b] for f, b in cs]
        if self.cap:
            e = [LETV, [[[S("c%d" % k)], 100 * self.i + k] for k in range(self.cap)], e]
        return e


def program(r, n=12):
    """-> forms, expected (text, None): interprets nothing, the expectations are built along"""
    forms, out, names = [], [], []
    f = forms.append
    f([S("current-error-handler"), [LAM, [S("e")], Q(S("rejected"))]])
    out.append("#<void>\n")      # value of the setter is checked separately
    live = []                    # (variable, clauses, name or NONE, state: shared list of captured values)
    for i in range(n):
        o = One(r, i)
        v = S("p%d" % i)
        e = o.expr()
        cells = [100 * i + k for k in range(o.cap)]
        bump = [isinstance(c, list) and False for c in o.clauses]
        # which clauses increment c0
        core_e = e[2] if o.cap else e
        bodies = [core_e[2]] if o.lam else [c[1] for c in core_e[1:]]
        bump = [b[0] == BEGIN for b in bodies]
        how = r.randrange(8)
        name = NONE
        if how == 0:
            f([DEF, [v], e])
            name = v
        elif how == 1:
            w = S("q%d" % i)
            f([DEF, [v, w], [S("values"), e, e[:]]])
            name = v
        elif how == 2:
            f([DEF, [v], [IF, [S("car"), Q([True])] if r.random() < .5 else True, e, False]])
            name = v
        elif how == 3:
            f([DEF, [v], [BEGIN, 5, [[LAM, [S("z")], e], 1]]])
            name = v
        elif how == 4:
            # kept in a data structure: no name of its own until it is defined
            f([DEF, [S("box%d" % i)], [S("list"), e]])
            out.append("#<void>\n")
            f([S("procedure-name"), [S("car"), S("box%d" % i)]])
            out.append("#f\n")
            f([DEF, [v], [S("car"), S("box%d" % i)]])
            name = v
        elif how == 5:
            f([DEF, [v], [S("eval"), Q(undo(e)), [S("current-environment")]]])
            name = v
        elif how == 6:
            f([DEF, [v], [S("procedure-rename"), e, Q(S("nm%d" % i))]])
            name = S("nm%d" % i)
        else:
            f([DEF, [v], [LETV, [[[S("loc%d" % i)], e]], S("loc%d" % i)]])
            name = S("loc%d" % i)
        out.append("#<void>\n")
        live.append([v, o.clauses, name, cells, bump])
        if r.random() < .5 and live:
            # another definition does not change the name
            s = r.choice(live)
            w = S("alias%d" % i)
            f([DEF, [w], s[0]])
            out.append("#<void>\n")
            live.append([w] + s[1:])
        if r.random() < .6:
            s = r.choice(live)
            w = S("ren%d" % i)
            nn = S(r.choice(["x", "new%d" % i, "car", str(s[0])]))
            f([DEF, [w], [S("procedure-rename"), s[0], Q(nn)]])
            out.append("#<void>\n")
            # captured variables are shared with the original
            live.append([w, s[1], nn, s[3], s[4]])
            f([S("eq?"), w, s[0]])
            out.append("#f\n")
    for k in range(2):
        b, a, args, want = r.choice(BUILT)
        w, nn = S("b%d" % k), S("bn%d" % k)
        f([DEF, [w], [S("procedure-rename"), S(b), Q(nn)]])
        out.append("#<void>\n")
        if r.random() < .5:
            f([DEF, [w], [S("procedure-rename"), w, Q(S("again"))]])
            nn = S("again")
            out.append("#<void>\n")
        f([S("list"), [S("procedure-name"), w], [S("procedure-name"), S(b)], [S("equal?"), [S("procedure-arity"), w], [S("procedure-arity"), S(b)]], [w] + args, [S("apply"), w, [S("list")] + args], [S(b)] + args])
        out.append("(%s %s #t %s %s %s)\n" % (nn, b, want, want, want))
        f([S("list"), [w] + [0] * 14 if a != "(0 . #f)" else 0])
        out.append("(%s)\n" % ("rejected" if a != "(0 . #f)" else 0))
    asks = []
    for s in live:
        asks += [("name", s), ("arity", s)] + [("call", s)] * 6
    r.shuffle(asks)
    for kind, s in asks:
        v, clauses, name, cells, bump = s
        if kind == "name":
            f([S("procedure-name"), v])
            out.append(write(name) + "\n")
            f(v if r.random() < .3 else [S("procedure?"), v])
            out.append("#t\n" if isinstance(forms[-1], list) else "#<procedure:%s>\n" % name)
        elif kind == "arity":
            a = arity_of(clauses)
            f([S("procedure-arity"), v])
            out.append(write(a) + "\n")
            f([S("procedure-arity?"), [S("procedure-arity"), v]])
            out.append("#t\n")
        else:
            n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14] + [k for k, _ in clauses] * 2 + [k + 1 for k, _ in clauses])
            xs = [r.randint(0, 99) for _ in range(n)]
            call = [v] + xs
            if r.random() < .3:
                j = r.randint(0, n)
                call = [S("apply"), v] + xs[:j] + [[S("list")] + xs[j:]]
            elif r.random() < .2:
                call = [CWV, [LAM, [], [S("values")] + xs], v]
            f([S("list"), call])
            got = "rejected"
            for j, (k, rest) in enumerate(clauses):
                if n == k or rest and n > k:
                    if bump[j]:
                        cells[0] += 1
                    got = write(lst([j] + xs[:k] + ([lst(xs[k:])] if rest else []) + cells))
                    break
            out.append("(%s)\n" % got)
    return forms, ("".join(out) + "#<end>\n", None)


BUILT = [("car", "1", [Q([5, 6])], "5"), ("vector-ref", "2", [Q(Vec([7, 8])), 1], "8"), ("list", "(0 . #f)", [1, 2, 3], "(1 2 3)"), ("+", "(0 . #f)", [1, 2], "3"),
         ("cons", "2", [1, 2], "(1 . 2)"), ("apply", "(2 . #f)", [S("list"), 1, Q([2])], "(1 2)"), ("map", "(2 . #f)", [S("add1"), Q([1, 2])], "(2 3)"),
         ("procedure-rename", "2", [S("car"), Q(S("x"))], "#<procedure:x>"), ("call-with-values", "2", [[LAM, [], [S("values"), 1, 2]], S("list")], "(1 2)"),
         ("values", "(0 . #f)", [4], "4"), ("void", "0", [], "#<void>"), ("symbol->string", "1", [Q(S("ab"))], '"ab"')]


def undo(e):
    return e


def report(r):
    """an arity error without a handler: the report names the procedure, what it accepts and what it was given"""
    o = One(r, 1)
    e = o.expr()
    bad = [n for n in range(0, 16) if not accepts(o.clauses, n)]
    if not bad:
        return None
    n = r.choice(bad)
    name = r.choice([None, "f", "ren"])
    forms = []
    if name is None:
        call = [e] + [7] * n
    elif name == "f":
        forms.append([DEF, [S("f")], e])
        call = [S("f")] + [7] * n
    else:
        forms.append([DEF, [S("f")], e])
        forms.append([DEF, [S("g")], [S("procedure-rename"), S("f"), Q(S("ren"))]])
        call = [S("g")] + [7] * n
    a = write(arity_of(o.clauses))
    least = re.match(r"\((\d+) \. #f\)$", a)
    pending = r.random() < .4
    if pending:
        call = [S("list"), call]
        w = "%s: arity mismatch%s\n  arguments...:\n   %s\n   %d\n" % (name or "error", ", expected at least" if least else "", least[1] if least else a, n)
    else:
        w = "Error%s: arity mismatch%s\n %s\n %d\n" % (" in " + name if name else "", ", expected at least" if least else "", least[1] if least else a, n)
    forms.append(call)
    forms.append([S("write"), 1])
    return forms, "#<void>\n" * (len(forms) - 2), w


def core_names(srv, ck):
    """name -> (reported name, arity) of every procedure bound in the core"""
    # (a variable, and so environment-ref too, names a procedure that has no name yet)
    t = ("(for-each (lambda (n) (if (procedure? (environment-ref (current-environment) n)) (begin (write (list n"
         " (procedure-name (environment-ref (current-environment) n)) (procedure-arity (environment-ref (current-environment) n)))) (newline)) (void)))"
         " (environment-symbols (current-environment)))")
    r = srv.run([dict(mode="evalw", text=t)])[0]
    ck.observe("core names")
    if r.kind != "exit" or r.code != 0:
        ck.violate("core names", "the procedures of the core cannot be listed: " + r.brief(), t)
        return {}
    out = {}
    for l in r.out.decode("latin1").splitlines():
        if l.startswith("("):
            x = unlist(rdr.Reader(l).read())[0]
            out[str(x[0])] = (x[1], x[2])
    return out


def library_names(root, f="base.min", seen=None):
    seen = set() if seen is None else seen
    p = os.path.normpath(os.path.join(root, f))
    if p in seen:
        return []
    seen.add(p)
    rd = rdr.Reader(open(p, encoding="latin1").read())
    out = []
    while True:
        d = rd.read()
        if d is EOF:
            return out
        if isinstance(d, Pair) and d.a == "export":
            for x in unlist(d.d)[0]:
                if isinstance(x, Sym):
                    out.append(str(x))
                elif isinstance(x, Pair) and x.a == "all":
                    out += library_names(os.path.dirname(p), x.d.a.s, seen)


def builtin(ck, srv, names, n, kind):
    """calls with every number of arguments: an arity error of the procedure itself iff the count is not in the reported arity"""
    r = ck.rng
    jobs, what = [], []
    for nm, (rep, a) in sorted(names.items()):
        ck.observe((kind, nm))
        ck.count(kind + " procedures")
        if not is_arity(a):
            ck.violate(kind + " arity", "%s reports the arity %s, which is not in normal form" % (nm, write(a)), nm)
            continue
        ns = list(range(0, 9))
        if n < len(ns):
            xs, t = unlist(a) if isinstance(a, Pair) else ([a], NIL)
            near = [k for x in xs for k in (x - 1, x, x + 1) if k >= 0]
            ns = sorted(set(r.sample(near, min(n, len(near)))))
        for k in ns:
            args = " ".join(r.choice(["'zz", "'zz", "'(a)", "-7", "#\\a", "car", "(lambda x x)", "#f"]) for _ in range(k))
            body = "(%s %s)" % (nm, args)
            if kind == "library":
                jobs.append(dict(mode="import", text='(import "lib/base.min")\n%s\n' % body))
            else:
                jobs.append(dict(mode="evalw", text=body))
            what.append((nm, rep, a, k, body))
    for (nm, rep, a, k, body), x in zip(what, srv.run(jobs, cpu=20)):
        ck.observe((kind, nm, k))
        ck.count(kind + " calls")
        if x.kind in ("timeout", "memory"):
            ck.count("calls that did not end")
            continue
        if x.crashed or x.kind != "exit":
            ck.violate(kind + " call", "%s ends abnormally: %s" % (body, x.brief()), body)
            continue
        e = x.err.decode("latin1")
        who = rep if isinstance(rep, Sym) else None
        m = (re.match(r"Error(?: in (\S+))?: arity mismatch(?:, expected at least)?\n (.*)\n (\d+)\n$", e)
             or re.match(r"(\S+): arity mismatch(?:, expected at least)?\n  arguments\.\.\.:\n   (.*)\n   (\d+)\n$", e))
        own = bool(m) and m[1] in (who, None, "error") and int(m[3]) == k and x.code == 1
        if own:
            # (a procedure of its own that was given the same number of arguments, under the same name)
            shown = "(%s . #f)" % m[2] if "at least" in e else m[2]
            own = shown == write(a)
            if not own and nm == who and m[1] == who:
                ck.violate(kind + " report", "%s reports the arity %s, its arity error shows %s: %r" % (nm, write(a), shown, e), body)
                continue
        ck.count(kind + (" arity errors" if own else " calls accepted"))
        if own == in_arity(a, k):
            ck.violate(kind + " call", "%s has the reported arity %s, but a call with %d arguments is %s\ncall: %s\nobserved: %s" % (
                nm, write(a), k, "an arity error" if own else "accepted", body, x.brief()), body)


def arity_pred(r):
    def v(d=0):
        k = r.random()
        if k < .5 or d > 1:
            return r.choice([0, 1, 2, 3, 5, 9, -1, 1 << 40])
        return r.choice([S("a"), False, True, NIL, lst([v(2) for _ in range(r.randint(0, 4))], r.choice([NIL, False, True, 3])),
                         Vec([1]), Char("1")])
    if r.random() < .5:
        x = lst(sorted(r.sample(range(12), r.randint(0, 5))), r.choice([NIL, False]))
    elif r.random() < .5:
        x = lst([r.randint(-1, 6) for _ in range(r.randint(0, 4))], r.choice([NIL, False]))
    else:
        x = v()
    return x


def main():
    ck = vp.Check("C26", RULE)
    r = ck.rng
    asan, plain = ck.server("asan"), ck.server("plain")
    try:
        first = None
        for rnd in range(ck.n(2, 30)):
            srv, v = ((asan, "asan"), (plain, "plain"))[rnd % 2]
            progs = [program(r) for _ in range(250)]
            ck.count("procedures", sum(1 for p in progs for f in p[0] if f[0] == DEF))
            ck.count("calls of procedures", sum(1 for p in progs for f in p[0] if f[0] == "list"))
            mon.Programs(ck, srv, v, cpu=40).run(progs, judge=judge)
            # reports
            ps = [x for x in (report(r) for _ in range(400)) if x]
            jobs = [dict(mode="evalw", text="\n".join(write(f) for f in p[0])) for p in ps]
            for p, j, x in zip(ps, jobs, srv.run(jobs)):
                ck.observe(j["text"])
                ck.count("arity reports")
                if x.crashed or x.kind != "exit" or x.code != 1 or x.err.decode("latin1") != p[2] or x.out.decode("latin1") != p[1]:
                    ck.violate("report", "the arity error of\n%s\nexpected %r\nobserved %s" % (j["text"], p[2], x.brief()), j["text"])
            # the predicate
            vs = [arity_pred(r) for _ in range(600)]
            t = "\n".join(write([S("procedure-arity?"), [QUOTE, x]]) for x in vs)
            x = srv.run([dict(mode="evalw", text=t)])[0]
            want = "".join("#t\n" if is_arity(y) else "#f\n" for y in vs) + "#<end>\n"
            ck.observe(t)
            ck.count("arity predicate", len(vs))
            if x.kind != "exit" or x.crashed or x.out.decode("latin1") != want:
                g = x.out.decode("latin1").splitlines()
                i = next((i for i, (a, b) in enumerate(zip(g, want.splitlines())) if a != b), len(g))
                ck.violate("procedure-arity?", "(procedure-arity? '%s): expected %s, observed %s; %s" % (
                    write(vs[i]) if i < len(vs) else "", want.splitlines()[i:i + 1], g[i:i + 1], x.brief()), t)
            if ck.viol:
                break
        if not ck.viol:
            names = {k: v for k, v in core_names(plain, ck).items() if not k.startswith("$") and k not in ("exit", "load", "fasl-write")}
            # what the core defines from a lambda or a C procedure carries its own name
            names.update({k: v for k, v in core_names(plain, ck).items() if k in ("load", "fasl-write")})
            builtin(ck, plain, names, ck.n(2, 9), "core")
            for k in ("car", "list", "vector-ref", "hashtable-set!", "substring", "map", "apply", "procedure-rename", "values", "eval", "fasl-write", "load"):
                if k in names and names[k][0] != S(k):
                    ck.violate("core name", "the procedure %s reports the name %s" % (k, write(names[k][0])), k)
        if not ck.viol:
            lib = ck.library()
            try:
                ln = sorted(set(library_names(lib.dir + "/lib")))
                ck.count("names the library exports", len(ln))
                js = [dict(mode="import", text='(import "lib/base.min")\n(write (if (procedure? %s) (list (procedure-name %s) (procedure-arity %s)) #f))\n' % (n, n, n)) for n in ln]
                procs = {}
                for n, x in zip(ln, lib.run(js, cpu=40)):
                    if x.kind == "exit" and x.code == 0 and x.out.startswith(b"("):
                        y = unlist(rdr.Reader(x.out.decode("latin1")).read())[0]
                        procs[n] = (y[0], y[1])
                if not procs:
                    ck.violate("library names", "no procedure of the library can be asked for its arity", "")
                builtin(ck, lib, procs, ck.n(2, 9), "library")
            finally:
                lib.close()
    finally:
        asan.close()
        plain.close()
    ck.finish()


def judge(want, r):
    out, err = want
    if r.crashed:
        return "abnormal end: " + r.crashed
    if r.kind != "exit":
        return "did not finish: " + r.kind
    got, w = r.out, out.encode("latin1")
    if got != w:
        g, ww = got.decode("latin1").splitlines(), out.splitlines()
        i = next((i for i, (a, b) in enumerate(zip(g, ww)) if a != b), min(len(g), len(ww)))
        return "output differs at form %d: expected %r, observed %r" % (i, ww[i:i + 1], g[i:i + 1])
    if r.code or r.err:
        return "expected a normal end"
    return None


if __name__ == "__main__":
    vp.main(main)
