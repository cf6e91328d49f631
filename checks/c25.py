#!/usr/bin/env python3
import _p
import random, re
import vp, gencore, gendata
from sexp import *
from refeval import *
from c06 import expr

RULE = ("random core programs and mutations of their forms (missing, extra and replaced subforms, improper tails, bad formals and binding clauses) "
        "placed behind an effect at top level, in loaded files, at the REPL and in eval; acceptance compared with an independent grammar, and no effect "
        "of a rejected form may show; a case is one form")
S = Sym
KW = {S(k) for k in ("define-values", "let-values", "letrec-values", "quote", "quote-syntax", "set!", "if", "lambda", "case-lambda", "begin")}


def proper(e):
    return isinstance(e, Pair) and unlist(e)[1] is NIL or e is NIL


def reports(e, out):
    """appends the texts a report of the malformed forms inside e may quote"""
    stack = [e]
    while stack:
        e = stack.pop()
        if isinstance(e, (bool, int, Char, Str, Box, Vec)):
            continue
        if not isinstance(e, Pair):
            out.append(write(e))
            continue
        xs, t = unlist(e)
        h = xs[0]
        ok = t is NIL
        n = len(xs)
        subs = []

        def body(ys):
            if not ok:
                out.append(write(lst([S("begin")] + ys, t)))
            stack.extend(ys)
        if not (isinstance(h, Sym) and h in KW):
            if ok:
                stack.extend(x for x in xs if not isinstance(x, Sym))
            else:
                out.append(write(e))
            continue
        if h in ("quote", "quote-syntax"):
            if not ok or n != 2:
                out.append(write(e))
        elif h == "if":
            if not ok or n != 4:
                out.append(write(e))
            else:
                stack.extend(xs[1:])
        elif h == "set!":
            if not ok or n != 3 or not isinstance(xs[1], Sym):
                out.append(write(e))
            else:
                stack.append(xs[2])
        elif h == "define-values":
            if not ok or n != 3 or not ids(xs[1]):
                out.append(write(e))
            else:
                stack.append(xs[2])
        elif h == "begin":
            if not ok:
                out.append(write(e))
            stack.extend(xs[1:])
        elif h == "lambda":
            if n < 3 or not formals_ok(xs[1]):
                out.append(write(e))
            elif not ok:
                out += [write(e), write(lst([S("begin")] + xs[2:], t))]
            stack.extend(xs[2:])
        elif h == "case-lambda":
            if not ok:
                out.append(write(e))
            for c in xs[1:]:
                if not isinstance(c, Pair) or not isinstance(c.d, Pair) or not formals_ok(c.a):
                    out.append(write(e))
                    continue
                ys, ct = unlist(c)
                if ct is not NIL:
                    out += [write(e), write(lst([S("begin")] + ys[1:], ct))]
                stack.extend(ys[1:])
        else:
            good = n >= 3 and proper(xs[1])
            if good:
                for b in unlist(xs[1])[0] if xs[1] is not NIL else []:
                    if not (isinstance(b, Pair) and proper(b) and len(unlist(b)[0]) == 2 and ids(b.a)):
                        good = False
                    else:
                        subs.append(b.d.a)
            if not good:
                out.append(write(e))
            else:
                stack.extend(subs)
            if not ok:
                out += [write(e), write(lst([S("begin")] + xs[2:], t))]
            stack.extend(xs[2:])
        stack[:] = [x for x in stack if not isinstance(x, Sym)]
    return out


def ids(x):
    return proper(x) and (x is NIL or all(isinstance(y, Sym) for y in unlist(x)[0]))


def formals_ok(x):
    if isinstance(x, Sym) or x is NIL:
        return True
    if not isinstance(x, Pair):
        return False
    xs, t = unlist(x)
    return all(isinstance(y, Sym) for y in xs) and (t is NIL or isinstance(t, Sym))


def todatum(f):
    """generator forms (Python lists) to pairs"""
    if isinstance(f, list):
        return lst([todatum(x) for x in f])
    if isinstance(f, Pair):
        xs, t = unlist(f)
        return lst([todatum(x) for x in xs], todatum(t))
    return f


def shape(f):
    """f as nested (elements, tail) for mutation"""
    if isinstance(f, Pair):
        xs, t = unlist(f)
        return [[shape(x) for x in xs], t]
    return f


def unshape(f):
    if isinstance(f, list):
        return lst([unshape(x) for x in f[0]], f[1])
    return f


def nodes(f, out):
    if isinstance(f, list):
        out.append(f)
        if not (f[0] and f[0][0] in ("quote", "quote-syntax") and isinstance(f[0][0], Sym)):
            for x in f[0]:
                nodes(x, out)
        elif len(f[0]) > 1:
            pass
    return out


def mutate(f, r, odd):
    s = shape(f)
    if not isinstance(s, list):
        s = [[S("begin"), s], NIL]
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        n = r.choice(nodes(s, []))
        xs = n[0]
        k = r.randrange(11)
        i = r.randrange(len(xs)) if xs else 0
        leaf = lambda: r.choice([S("x"), 1, Str("s"), True, Char("c"), Vec([S("a"), 1]), Box(S("if")), S("y"), S(r.choice(sorted(KW)))] + ([NIL, VOID, EOF] if odd else [NIL]))
        if k == 0 and xs:
            del xs[i]
        elif k == 1:
            xs.insert(r.randint(0, len(xs)), leaf())
        elif k == 2 and xs:
            xs[i] = leaf()
        elif k == 3 and xs:
            n[1] = r.choice([S("x"), 1, Str("s")])
        elif k == 4 and xs:
            xs[i] = [[xs[i]], NIL]
        elif k == 5 and xs and isinstance(xs[i], list) and xs[i][0]:
            xs[i:i + 1] = xs[i][0]
        elif k == 6 and xs:
            xs[0] = S(r.choice(sorted(KW)))
        elif k == 7 and len(xs) > 1:
            j = r.randrange(len(xs))
            xs[i], xs[j] = xs[j], xs[i]
        elif k == 8 and xs:
            xs.append(xs[i])
        elif k == 9 and xs:
            n[0] = xs[:i]
        elif k == 10:
            xs.insert(r.randint(0, len(xs)), unshape_small(r))
    return unshape(s)


def unshape_small(r):
    L = lambda *x: lst(list(x))
    return shape(r.choice([L(), L(S("quote")), L(S("quote"), 1, 2), L(S("lambda"), S("x")), L(S("lambda"), lst([S("x"), 1]), 1), L(S("if"), 1, 2), L(S("if"), 1, 2, 3, 4),
                           L(S("begin")), L(S("case-lambda")), L(S("case-lambda"), L(NIL)), L(S("case-lambda"), L(lst([S("x")], S("y")), 1), L(S("z"), 2)), L(S("set!"), S("x")),
                           L(S("set!"), 1, 2), L(S("let-values"), NIL), L(S("let-values"), L(L(S("x"), 1)), 1), L(S("let-values"), L(L(L(S("x")), 1)), 1),
                           L(S("letrec-values"), L(L(L(S("x"), S("y")), 1, 2)), 1), L(S("define-values"), S("x"), 1), L(S("define-values"), L(S("x")), 1),
                           lst([S("lambda"), S("x")], S("y")), lst([S("f"), 1], 2), L(S("quote-syntax"), S("a")), L(S("quote-syntax")), lst([S("case-lambda")], 5),
                           L(S("let-values"), L(lst([S("a")], 1)), 2), lst([S("let-values"), lst([L(NIL, 1)], S("q")), 2]), L(S("lambda"), lst([S("a"), Str("b")], S("c")), 1),
                           lst([S("case-lambda"), lst([S("x"), 1], 2)]), L(S("lambda"), lst([S("a")], 7), 1)]))


def wrap(e, r):
    """a context in which e is an expression"""
    L = lambda *x: lst(list(x))
    for _ in range(r.choice([0, 0, 1, 2, 4, 40])):
        k = r.randrange(12)
        if k == 0:
            e = L(S("begin"), 1, e, 2)
        elif k == 1:
            e = L(S("if"), True, 1, e)
        elif k == 2:
            e = L(S("if"), e, 1, 2)
        elif k == 3:
            e = L(S("lambda"), lst([S("a")], S("b")), 1, e)
        elif k == 4:
            e = L(S("case-lambda"), L(L(S("a")), 1), L(S("z"), e), L(NIL, 2))
        elif k == 5:
            e = L(S("let-values"), L(L(L(S("a")), 1), L(L(S("b")), e)), S("a"))
        elif k == 6:
            e = L(S("letrec-values"), L(L(L(S("a")), e)), 1)
        elif k == 7:
            e = L(S("let-values"), NIL, 1, e, 1)
        elif k == 8:
            e = L(S("set!"), S("car"), e)
        elif k == 9:
            e = L(S("list"), 1, e, 2)
        elif k == 10:
            e = L(e, 1)
        else:
            e = L(S("call-with-values"), L(S("lambda"), NIL, e), S("list"))
    return e


def main():
    ck = vp.Check("C25", RULE)
    asan, plain = ck.server("asan"), ck.server("plain")
    DEF0 = "(define-values (build) (lambda (xs t) (if (null? xs) t (cons (car xs) (build (cdr xs) t)))))\n"
    seq = [0]

    def case(r, srv):
        odd = False
        mode = r.choice(["top", "top", "top", "direct", "repl", "load", "eval", "eval", "eval2", "evalobj"])
        if r.random() < .25:
            e = unshape(unshape_small(r))
        else:
            g = gencore.Gen(r, size=r.choice([5, 10, 20, 40]))
            fs = gencore.scope_program(r) if r.random() < .3 else g.program()
            e = todatum(r.choice(fs))
            odd = mode == "evalobj"
            if r.random() < .85:
                e = mutate(e, r, odd)
        e = wrap(e, r)
        out = reports(e, [])
        if isinstance(e, Sym):
            out = []
        thunk = lst([S("lambda"), NIL, lst([S("display"), Str("R")]), e])
        t = write(thunk)
        if mode == "direct" and not out:
            mode = "top"
        jm = "evalw"
        if mode == "top":
            text = "(display \"A\")\n(begin (display \"B\") %s)\n" % t
            w, w2 = "A#<void>\n", "B#<procedure>\n#<end>\n"
        elif mode == "direct":
            text = "(display \"A\")\n(begin (display \"B\") %s)\n(display \"C\")" % write(e)
            w, w2 = "A#<void>\n", None
        elif mode == "repl":
            jm = "repl"
            text = "(display \"A\")\n(begin (display \"B\") %s)\n" % t
            w, w2 = "> A> ", "B#<procedure>\n> "
        elif mode == "load":
            seq[0] += 1
            f = "%s/l%d.min" % (srv.dir, seq[0])
            with open(f, "w", encoding="latin1") as h:
                h.write("(display \"L\")\n(begin (display \"B\") %s)\n" % t)
            text = "(display \"A\")\n(begin (load \"%s\") 7)\n" % f
            w, w2 = "A#<void>\nL", "B7\n#<end>\n"
        elif mode == "eval":
            text = "(display \"A\")\n(begin (display \"E\") (procedure? (eval '(begin (display \"B\") %s))))\n" % t
            w, w2 = "A#<void>\nE", "B#t\n#<end>\n"
        elif mode == "eval2":
            text = "(display \"A\")\n(+ 1 ((lambda (x) (set! x (eval (list 'begin '(display \"B\") '%s))) (if (procedure? x) 1 2)) 3))\n" % t
            w, w2 = "A#<void>\n", "B2\n#<end>\n"
        else:
            text = DEF0 + "(display \"A\")\n(begin (display \"E\") (procedure? (eval (list 'begin '(display \"B\") (list 'lambda '() %s)))))\n" % expr(e, r)
            w, w2 = "#<void>\nA#<void>\nE", "B#t\n#<end>\n"
        return jm, mode, text, w, w2, out, t

    def judge(x, w, w2, out):
        if x.crashed:
            return "abnormal end: " + x.crashed
        if x.kind != "exit":
            return "did not finish: " + x.kind
        got = re.sub(rb"#<procedure:[^>]*>", b"#<procedure>", x.out).decode("latin1")
        if not out:
            if x.code or x.err:
                return "a well-formed form is rejected"
            return None if got == w + w2 else "output of an accepted form differs: expected %r" % (w + w2)
        if x.code != 1:
            return "a malformed form is accepted (status %d)" % x.code
        if got != w:
            return "effects before the rejection: expected output %r" % w
        err = x.err.decode("latin1")
        if not re.search("bad syntax|expected identifier|malformed application|missing procedure", err):
            return "not reported as a syntax error"
        if not any(o in err for o in out):
            return "the report does not quote the malformed form"

    try:
        n = ck.n(9000, 120000)
        for base in range(0, n, 3000):
            for srv, name, cnt in ((asan, "asan", 3000), (plain, "plain", 1000)):
                cs = []
                for i in range(cnt):
                    rr = random.Random("%d/%s/%d" % (ck.seed, name, base + i))
                    try:
                        cs.append(case(rr, srv))
                    except RecursionError:
                        pass
                for (jm, mode, text, w, w2, out, t), x in zip(cs, srv.run([dict(mode="repl", text="", stdin=c[2]) if c[0] == "repl" else dict(mode=c[0], text=c[2]) for c in cs], cpu=20)):
                    ck.observe(t)
                    ck.count(("malformed forms, " if out else "well-formed forms, ") + mode)
                    ck.count("runs on " + name)
                    b = judge(x, w, w2, out)
                    if b:
                        ck.violate("form", "%s, %s: %s\nform: %s\nmalformed parts: %s\nprogram:\n%s\nobserved: %s" % (name, mode, b, t[:3000], out[:5], text[-3000:], x.brief()), text)
                    elif len(text) < 300 and ck.rng.random() < .002:
                        ck.sample(text)
            if ck.viol:
                break
    finally:
        asan.close()
        plain.close()
    ck.finish()


if __name__ == "__main__":
    vp.main(main)
