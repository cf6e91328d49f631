#!/usr/bin/env python3
import _p
import os, random, re
import vp, gencore, gendata
from sexp import *
from refeval import *

RULE = ("hostile programs: sequences of calls of every public procedure on shared mutable values of every type, with procedures that modify what is being traversed, "
        "error handlers that return, user equality, hash and writer procedures; random core programs; malformed forms; random and damaged source texts, input "
        "and FASL data; run under AddressSanitizer with UndefinedBehaviorSanitizer (every object its own block) and MemorySanitizer; a case is one program or byte string")
S = Sym
# procedures that leave the sandbox of the case (files, the current directory) or end the run; they are called with fixed arguments only
KEEP_OUT = {"exit", "load", "current-directory", "open-output-file", "open-input-file", "current-error-handler", "default-error-handler", "make-vector",
            "make-string", "make-list", "iota", "current-output-port", "current-error-port"}
ATOMS = ["0", "1", "2", "3", "7", "-1", "97", "5000000000", "-9223372036854775808", "9223372036854775807", "#t", "#f", "'()", "'a", "'str", "#\\a", "#\\nul", "#\\\xff", "(void)", "eof",
         "\"str\"", "\"\"", "\"12\"", "'(1 2 3)", "'(a . b)", "'(a b . c)", "'#(1 2)", "'#((mutable a) (immutable b))", "'#&5", "&exn", "&argument", "&range", "#'(a 5 #(b))", "#'x",
         "car", "cons", "list", "values", "vector", "string-append", "equal?", "eq-hash", "equal-hash", "hashtable-clear!", "raise", "void", "apply", "current-environment"]
FRESH = {
    "L": ["(list 1 2 3)", "(list '(1 2) '(3 4))", "(iota 12)", "(make-list 5 'e)", "(list \"a\" \"bc\" \"\")", "(list #\\a #\\b)", "'()", "(list 1 2 3)"],
    "p": ["(cons 1 2)", "(box 1)", "(procedure-rename car 'kar)"],
    "W": ["(vector 1 2 3)", "(vector)", "(make-vector 30 #f)", "(list->vector (list 1 (list 2) \"x\"))"],
    "S": ["(string #\\a #\\b)", "(make-string 40 #\\z)", "(string-append \"ab\" \"~a\")", "(make-string 0)"],
    "T": ["(make-hashtable)", "(make-eq-hashtable)", "(let-values ([(t) (make-hashtable)]) (hashtable-set! t 1 2) (hashtable-set! t 'b 3) (hashtable-set! t \"c\" 4) t)",
          "(let-values ([(t) (make-hashtable)]) (for-each (lambda (i) (hashtable-set! t i i)) (iota 30)) t)"],
    "N": ["(open-input-string \"(a \\\"b\\\" #\\\\c) 12 x\")", "(open-input-string \"\")", "(open-input-file \"in.txt\")"],
    "O": ["(open-output-string)", "(let-values ([(p) (open-output-string)]) (put-string p \"text\") p)"],
    "D": ["(make-record-type-descriptor 'r #f #f #f #f '#((mutable x) (immutable y)))", "(make-record-type-descriptor 'o #f 'uid #f #t '#((mutable x)))",
          "(make-record-type-descriptor 'c (make-record-type-descriptor 'b #f #f #f #f '#((mutable x))) #f #t #f '#((mutable z) (mutable w)))"],
    "X": ["(make-exn 'who \"msg\")", "(make-argument-exn 'w \"m\" 1 2)", "((record-constructor (make-record-type-descriptor 'q #f #f #f #f '#((mutable x)))) 5)",
          "(record-accessor (make-record-type-descriptor 'p #f 'u #f #f '#((mutable x))) 0)"],
    "E": ["(copy-environment (current-environment))"],
    "Z": ["(datum->syntax '(a (b) #(c)))", "#'(a 5 #(b))"],
}
KINDS = sorted(FRESH)


EFFECTS = ["(set-cdr! $V $X)", "(set-car! $V $X)", "(vector-set! $V $I $X)", "(vector-fill! $V $X)", "(set-box! $V $X)", "(string-set! $V $I #\\q)", "(hashtable-set! $V $A $X)",
           "(hashtable-delete! $V $A)", "(hashtable-clear! $V)", "(hashtable-update! $V 1 (lambda (x) $X) 0)", "(close-input-port $V)", "(close-output-port $V)", "(set! v0 $X)", "(read-char $V)",
           "(put-char $V #\\p)", "(raise $X)", "(car 5)", "(undefined-variable)", "(display $V)", "(write $V (open-output-string))", "$C", "(eval '$Q (current-environment))",
           "(get-output-string $V)", "(environment-set! (current-environment) 'v1 $X)"]
PICK = {"NN": ["0", "1", "500", "-1", "'a"], "M": ["0", "1", "50", "-1", "'a"], "I": ATOMS[:10], "012": ["0", "1", "2"], "IN": ["\"in.txt\"", "\"o1.txt\"", "\"none\""], "OUT": ["\"o0.txt\"", "\"o1.txt\"", "\"o2.txt\""],
        "B": ["#t", "#f"]}
TYPED = """map P L|map P L L|for-each P L|for-each P L L|andmap P L|ormap P L L|andmap P L L L|ormap P L|make-custom-hashtable P P|hashtable-set! T V V|hashtable-set! T V V|hashtable-ref T V P|hashtable-update! T V P V|hashtable-delete! T V
hashtable-contains? T V|equal? V V|equal? W W|equal? T T|equal? X X|equal-hash V|equal-hash X|vector-ref W I|vector-set! W I V|string-ref S I|string-set! S I #\\s|apply P V L|apply P L|call-with-values P P|record-type-equal-procedure D P
record-type-hash-procedure D P|record-writer D P|format "~a~s~a" V V V|format S V|string-append S S S|append L L V|list->string L|read N|eval V|eval V E|make-vector NN V|make-string NN #\\x|iota M|make-list M V|hashtable-entries T
hashtable-keys T|hashtable-vals T|hashtable-copy T|open-output-file OUT|open-input-file IN|load IN|make-record-type-descriptor 's D #f #f B W|make-record-type-descriptor 's D #f #f B '#((mutable a))|record-accessor D 012
record-mutator D 012|record-constructor D|fasl-write V fp|environment-ref E V V|environment-set! E 'v0 V|environment-symbols E|syntax->datum Z|datum->syntax V|syntax->list Z|syntax-e Z|string->symbol S|string->number S
procedure-rename P V|raise-range-error 'w V S I I I|raise-arity-error 'w V V|raise-argument-error 'w S V|put-string O S 012 012|put-datum O V|write V O|display V O|get-output-string O|read-char N|peek-char N|close-input-port N|close-output-port O
vector->list W|list->vector L|reverse L|length L|symbol->string V|for-each P L L L|map P L L L|vector-fill! W V|list-ref L I|cons V L|set-cdr! L V|set-car! L V|procedure-arity P|error 'w S V V|raise V|write X|display T|format "~s" X
fprintf O "~a ~s" V V|string->list S|enumerate L|record-type-field-names D|hashtable-clear! T|copy-environment E|syntax-loc Z|list? L|unbox V|set-box! V V|fasl-read N|void|newline O""".replace("\n", "|").split("|")


class Hostile:
    def __init__(self, r, names):
        self.r, self.names = r, names
        self.vars, self.kinds = [], []
        self.out = []

    def val(self, d=0, kind=None):
        r = self.r
        k = r.random()
        if kind and k < .85:
            vs = [v for v, q in self.kinds if q == kind]
            return r.choice(vs) if vs and r.random() < .75 else r.choice(FRESH[kind])
        if k < .5 and self.vars:
            return r.choice(self.vars)
        if k < .75:
            return r.choice(ATOMS)
        if k < .88:
            return r.choice(FRESH[r.choice(KINDS)])
        return self.proc(d + 1)

    def effect(self, d):
        """something that changes a shared value"""
        r = self.r
        v = r.choice(self.vars) if self.vars else "(list 1)"
        x = r.choice(ATOMS) if r.random() < .85 else r.choice(self.vars or ["1"])
        e = r.choice(EFFECTS)
        for k, f in (("$V", lambda: v), ("$X", lambda: x), ("$A", lambda: r.choice(ATOMS)), ("$I", lambda: str(r.randint(0, 4))), ("$C", lambda: self.call(d + 1)),
                     ("$Q", lambda: self.call(d + 1).replace("'", ""))):
            if k in e:
                e = e.replace(k, f())
        return e

    def proc(self, d):
        """a procedure a primitive may call"""
        r = self.r
        if d > 3:
            return r.choice(["car", "list", "(lambda a a)", "equal?", "(lambda (x) x)"])
        formals = r.choice(["(x)", "(x)", "(x)", "(x y)", "(x y)", "x", "(x . y)", "()", "(x y z)"])
        ps = [p for p in "xyz" if p in formals]
        body = []
        for _ in range(r.choice([0, 1, 1, 2])):
            body.append("(if (< fuel 0) (void) (begin (set! fuel (- fuel 1)) %s))" % self.effect(d))
        body.append(r.choice(ps + ["(eq? %s 1)" % (ps + ["1"])[0], "(values)", "(values 1 2)", "(void)", "(fuel)"] + [r.choice(ATOMS) for _ in range(3)] + [self.val(d)]))
        if r.random() < .15:
            return "(case-lambda [%s %s] [zz %s])" % (formals, " ".join(body), r.choice(ATOMS))
        return "(lambda %s %s)" % (formals, " ".join(body))

    def call(self, d=0):
        r = self.r
        n = r.choice(self.names)
        k = r.random()
        if n[0] == "c" and set(n[1:-1]) <= set("ad") and n[-1] == "r":
            a = 1
        else:
            a = r.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 6])
        if k < .6:
            # well-typed calls reach deeper
            return "(" + " ".join(self.val(d) if w == "V" else self.val(d, w) if w in FRESH else self.proc(d + 1) if w == "P" else r.choice(PICK[w]) if w in PICK else w for w in r.choice(TYPED).split(" ")) + ")"
        if k < .68 and self.vars:
            return "(%s %s)" % (r.choice(self.vars), " ".join(self.val(d) for _ in range(a)))
        return "(%s %s)" % (n, " ".join(self.val(d) for _ in range(a)))

    def program(self):
        r = self.r
        o = ["(define-values (fuel) 60)", "(define-values (fp) (open-output-file \"fasl.out\"))"]
        for i in range(r.randint(3, 8)):
            q = r.choice(KINDS)
            o.append("(define-values (v%d) %s)" % (i, r.choice(FRESH[q]) if r.random() < .85 else self.proc(0)))
            self.kinds.append(("v%d" % i, q))
            self.vars.append("v%d" % i)
        if r.random() < .88:
            eff = "(if (< fuel 0) (void) (begin (set! fuel (- fuel 1)) %s))" % self.effect(2) if r.random() < .2 else "(void)"
            o.append("(current-error-handler (lambda (e) %s %s))" % (eff, r.choice(ATOMS + self.vars + ["e"])))
        n = len(self.vars)
        for i in range(r.randint(4, 22)):
            c = self.call()
            k = r.random()
            if k < .5:
                o.append("(define-values (v%d) (car (list %s)))" % (n, c))
                self.vars.append("v%d" % n)
                n += 1
            elif k < .9:
                o.append("(length (list %s))" % c)
            else:
                o.append("(list %s)" % c)
        o.append("(display \"#<done>\")")
        return "\n".join(o)


def excepted(x):
    """the two exceptions of the property: a C stack or memory that is exhausted"""
    return b"stack-overflow" in x.err or b"VP-OUT-OF-BUDGET" in x.err or b"allocation-size-too-big" in x.err


def judge(ck, what, variant, x, text, codes=(0, 1)):
    ck.count(what + ", " + variant)
    if x.kind in ("timeout", "memory") or excepted(x):
        ck.count("did not end within the limits" if x.kind in ("timeout", "memory") else "stack or memory exhausted")
        return
    if x.crashed or x.kind != "exit":
        return "abnormal end: %s" % (x.crashed or x.kind)
    if x.code not in codes:
        return "status %d" % x.code
    if x.code == 1 and not x.err.strip():
        return "status 1 without an error report"


def core_names(srv, ck):
    import c26
    return sorted(n for n in c26.core_names(srv, ck) if not n.startswith("$") and n not in KEEP_OUT)


def fasl_seeds(ck, srv, r):
    out = []
    for i in range(ck.n(30, 200)):
        t = ["(define-values (t0) (make-record-type-descriptor 'a #f 'u #f #f '#((mutable x))))", "(define-values (p) (open-output-file \"w%d.fasl\"))" % i]
        for _ in range(r.randint(1, 3)):
            e = "'" + write(gendata.data(r, r.randint(0, 3)))
            if r.random() < .3:
                e = "((record-constructor t0) %s)" % e
            t.append("(fasl-write (list %s) p)" % e)
        t.append("(close-output-port p)")
        out.append("\n".join(t))
    rs = srv.run([dict(mode="evalw", text=t) for t in out])
    blobs = []
    for i, x in enumerate(rs):
        f = "%s/w%d.fasl" % (srv.dir, i)
        if x.ok and os.path.exists(f):
            blobs.append(open(f, "rb").read())
    return blobs


def damage(b, r):
    b = bytearray(b)
    for _ in range(r.choice([0, 1, 1, 2, 4])):
        k = r.random()
        i = r.randint(0, len(b))
        if k < .5 and i < len(b):
            b[i] = r.choice([0, 1, 2, 0xff, 0x7f, 0x80, r.randrange(256), r.randrange(32)])
        elif k < .7:
            del b[i:]
        elif k < .85:
            b[i:i] = bytes(r.randrange(256) for _ in range(r.randint(1, 9)))
        else:
            j = r.randint(0, len(b))
            b[min(i, j):max(i, j)] = b""
    return bytes(b)


def main():
    ck = vp.Check("C02", RULE)
    r = ck.rng
    asan, msan = ck.server("asan"), ck.server("msan")
    both = (("asan", asan), ("msan", msan))
    try:
        for v, s in both:
            open(s.dir + "/in.txt", "w").write("(display 1)\n(define-values (loaded) '(1 2))\nloaded\n")
        names = core_names(asan, ck)
        ck.count("public procedures", len(names))
        blobs = fasl_seeds(ck, asan, r)

        def go(what, v, s, jobs, cpu=2, codes=(0, 1)):
            for j, x in zip(jobs, s.run(jobs, cpu=cpu, mem=0)):
                t = j.get("text") or ""
                ck.observe((what, j["mode"], t, j.get("stdin")))
                e = judge(ck, what, v, x, t, codes)
                if b"#<done>" in x.out:
                    ck.count("hostile programs that reached their end")
                if e:
                    ck.violate(what, "%s build: %s\n%s (mode %s)%s:\n%s\nobserved: %s" % (
                        v, e, what, j["mode"], " with standard input %r" % j["stdin"] if "stdin" in j else "", t if isinstance(t, str) else repr(t), x.brief()), repr(t) + repr(j.get("stdin")))

        for rnd in range(ck.n(1, 25)):
            for v, s in both:
                q = ck.n(1, 1)
                n = 3500 if v == "asan" else 1800
                go("hostile programs", v, s, [dict(mode="evalw", text=Hostile(r, names).program()) for _ in range(n)])
                if ck.viol:
                    break
                ps = []
                for k in range(300 if v == "asan" else 700):
                    rng = random.Random("%d/%d/%d" % (ck.seed, rnd, k))
                    g = gencore.Gen(rng, size=rng.choice([15, 40, 80, 160]), err=k % 3 == 0)
                    p = [gencore.idiom_program, lambda g: gencore.scope_program(rng), lambda g: g.program(), lambda g: g.program()][k % 4](g)
                    ps.append("\n".join(write(f) for f in p))
                go("core programs", v, s, [dict(mode=r.choice(["evalw", "load"]), text=t) for t in ps], cpu=10)
                # the same programs and random data with damage: malformed forms, lexical errors, wrong operands
                ts = []
                for k in range(700):
                    if r.random() < .5:
                        t = gendata.mutate(r.choice(ps)[:3000], r)
                    elif r.random() < .6:
                        t = gendata.mutate(gendata.text(r, r.choice([1, 1, 2]), r.choice([0, 1, 2, 3]))[1], r)
                    else:
                        t = gendata.junk(r)
                    if r.random() < .05:
                        t += "\0" + gendata.junk(r)
                    ts.append(t)
                # (a damaged program may call exit)
                go("damaged source", v, s, [dict(mode=r.choice(["load", "load", "repl", "readw"]), text=t) for t in ts], cpu=3)
                go("standard input", v, s, [dict(mode="evalw", text="(list (peek-char) (char-ready?) (read-char) (read) (read-char) (read) (read))", stdin=t) for t in ts[::3]], cpu=3)
                fs = [damage(r.choice(blobs), r) for _ in range(700)] + [bytes(r.randrange(256) for _ in range(r.randint(0, 30))) for _ in range(60)]
                go("fasl data", v, s, [dict(mode="fasl", text=b) for b in fs], cpu=3)
                if ck.viol:
                    break
            if ck.viol:
                break
    finally:
        asan.close()
        msan.close()
    ck.finish()


if __name__ == "__main__":
    vp.main(main)
