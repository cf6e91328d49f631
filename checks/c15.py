#!/usr/bin/env python3
import _p
import os, random
import vp, mon, core, gendata, rdr, refeval
from sexp import *
from refeval import *
from mon import Q

RULE = ("random histories over up to a dozen string ports, file ports and the standard input: characters, data and ends read and peeked, every writing procedure, buffers taken, "
        "files written, closed, reopened and read, several ports on one file, closing twice, closed ports and wrong directions; every result and, byte for byte, every file "
        "left behind compared with a model; transfers up to megabytes across every buffer size; a case is one history")
S = Sym
refeval.PATTERNS["open"] = rb"[^\n]*cannot open (in|out)put file"
EOFP = lambda c: [S("eof-object?"), c]


class IoInterp(core.FullInterp):
    """ports with files: fs maps a path to its contents"""

    def __init__(self, fs, stdin):
        self.stdin = stdin
        core.FullInterp.__init__(self)
        self.fs = fs
        self.writers, self.readers = [], []
        T = self.top.b
        old = {k: T[S(k)].fn for k in ("get-output-string", "close-input-port", "close-output-port", "char-ready?") if S(k) in T}

        def defp(name, fn, lo, hi=None):
            T[S(name)] = Prim(name, fn, lo, lo if hi is None else hi)

        def path(who, x):
            if not isinstance(x, Str):
                core.contract(who, "string?", x)
            return x.s

        def oif(x):
            n = path("open-input-file", x)
            if n not in fs:
                raise MErr("open")
            for w in self.writers:
                if w.path == n and w.open:
                    if w.pending:
                        raise Skip()
                    w.frozen = True
            p = core.Port("file", fs[n], True)
            p.path = n
            self.readers.append(p)
            return p

        def oof(x):
            n = path("open-output-file", x)
            if "/" in n:
                raise MErr("open")
            if any(p.path == n and p.open for p in self.writers + self.readers):
                raise Skip()
            p = core.Port("file", "", False)
            p.path, p.pending, p.frozen = n, "", False
            fs[n] = ""
            self.writers.append(p)
            return p
        defp("open-input-file", oif, 1)
        defp("open-output-file", oof, 1)

        def close(who, inp):
            def f(p):
                if not (isinstance(p, core.Port) and p.inp == inp):
                    core.contract(who, "input-port?" if inp else "output-port?", p)
                if p.kind != "std":
                    if p.kind == "file" and not p.inp:
                        self.sync(p)
                    p.open = False
                return VOID
            return f
        defp("close-input-port", close("close-input-port", True), 1)
        defp("close-output-port", close("close-output-port", False), 1)

        def flush(p):
            if not (isinstance(p, core.Port) and not p.inp):
                core.contract("flush-output-port", "output-port?", p)
            if not p.open:
                raise MErr("closed")
            if p.kind == "file":
                self.sync(p)
            return VOID
        defp("flush-output-port", flush, 1)

        def ready(p=None):
            p = self.in_port if p is None else p
            if not (isinstance(p, core.Port) and p.inp):
                core.contract("char-ready?", "input-port?", p)
            if not p.open:
                raise MErr("closed")
            if p.pos >= len(p.buf):
                raise Skip()        # at the end: not specified
            return True
        defp("char-ready?", ready, 0, 1)

        def gos(p, f=old["get-output-string"]):
            if isinstance(p, core.Port) and "\0" in p.buf:
                raise Skip()        # NUL ends a string
            return f(p)
        defp("get-output-string", gos, 1)

        def read(p=None, f=T[S("read")].fn):
            q = self.in_port if p is None else p
            if isinstance(q, core.Port) and q.inp and "\0" in q.buf[q.pos:]:
                raise Skip()
            return f(p)
        defp("read", read, 0, 1)

    def sync(self, p):
        if p.open:
            self.fs[p.path] += p.pending
            p.pending = ""

    def emit(self, p, s):
        if p.kind == "file":
            if not p.open:
                if not s:
                    raise Skip()
                raise MErr("closed")
            if p.frozen:
                raise Skip()
            p.pending += s
            return
        core.FullInterp.emit(self, p, s)

    def end(self):
        for p in self.writers:
            self.sync(p)


def lit(s):
    """a string expression: literals have at most 4095 characters"""
    if len(s) <= 1200:
        return Str(s)
    return [S("string-append")] + [Str(s[i:i + 1200]) for i in range(0, len(s), 1200)]


class History:
    def __init__(self, r, tag):
        self.r, self.tag = r, tag
        self.ports = []         # [variable, kind, input?, open?, path]
        self.forms, self.files, self.n = [], {}, 0
        self.stdin = self.content() if r.random() < .5 else ""
        for i in range(r.choice([0, 1, 1, 2])):
            self.files[self.name()] = self.content(nul=r.random() < .2)
        self.paths = list(self.files)

    def f(self, x):
        self.forms.append(x)

    def name(self):
        self.n += 1
        return "%s_%d.txt" % (self.tag, self.n)

    def content(self, nul=False):
        r = self.r
        k = r.random()
        if nul:
            return "".join(chr(r.choice([0, 0, 255, 10, 26, 4, 97, r.randrange(256)])) for _ in range(r.choice([1, 5, 40])))
        if k < .1:
            return ""
        if k < .6:
            return gendata.text(r, r.choice([1, 1, 2, 3, 6]), r.choice([0, 1, 2]))[1]
        if k < .7:
            return gendata.mutate(gendata.text(r, 2, 1)[1], r)
        n = r.choice([1, 2, 5, 20, 80]) if r.random() < .97 else r.choice([4095, 4096, 4097, 8192])
        pool = r.choice(["abc\n", "ab ()\"'1\n\t", "".join(map(chr, range(1, 256))), "\xff\xfe\x80\x1a\x04"])
        return "".join(r.choice(pool) for _ in range(n))

    def pick(self, inp=None, op=True, kind=None):
        c = [p for p in self.ports if (inp is None or p[2] == inp) and (op is None or p[3] == op) and (kind is None or p[1] == kind)]
        return self.r.choice(c) if c else None

    def add(self, kind, inp, e, path=None):
        v = "p%d" % len(self.ports)
        self.f([DEF, [S(v)], e])
        self.ports.append([v, kind, inp, True, path])

    def open(self):
        r = self.r
        k = r.randrange(10)
        if k < 3:
            self.add("string", True, [S("open-input-string"), lit(self.content())])
        elif k < 5:
            self.add("string", False, [S("open-output-string")])
        elif k < 7:
            busy = [p[4] for p in self.ports if p[3] and p[4]]
            free = [x for x in self.paths if x not in busy]
            n = r.choice(free) if free and r.random() < .4 else self.name()
            if n not in self.paths:
                self.paths.append(n)
            self.add("file", False, [S("open-output-file"), Str(n)], n)
        else:
            writing = [p[4] for p in self.ports if p[3] and p[4] and not p[2]]
            free = [x for x in self.paths if x not in writing]
            if free:
                n = r.choice(free)
                self.add("file", True, [S("open-input-file"), Str(n)], n)

    def std(self, p):
        return p == "std"

    def read(self):
        r = self.r
        p = self.pick(True)
        args = [S(p[0])] if p else None
        if self.stdin and (p is None or r.random() < .2):
            args = r.choice([[], [[S("current-input-port")]]])
        if args is None:
            return
        k = r.randrange(10)
        if k < 4:
            self.f([S("list")] + [[S(r.choice(["read-char", "read-char", "peek-char"]))] + args for _ in range(r.choice([1, 2, 3, 6]))])
        elif k < 7:
            self.f([S("read")] + args)
        elif k < 8:
            self.f([S("if"), EOFP([S("peek-char")] + args), Q(S("end")), [S("list"), [S("char-ready?")] + args, [S("peek-char")] + args]])
        elif k < 9:
            # to the end, which then stays
            self.drain(args)
            self.f([S("list")] + [[S("eof-object?"), [S(q)] + args] for q in r.sample(["read-char", "peek-char", "read", "read-char"], r.randint(1, 4))])
        else:
            self.copy(args)

    def drain(self, args):
        rd = self.r.choice(["read-char", "read-char", "read"])
        self.f([[LAM, [], [S("letrec-values"), [[[S("go")], [LAM, [S("acc")], [S("let-values"), [[[S("c")], [S(rd)] + args]],
               [S("if"), EOFP(S("c")), [S("reverse"), S("acc")], [S("go"), [S("cons"), S("c"), S("acc")]]]]]]], [S("go"), Q([])]]]])

    def copy(self, args):
        o = self.pick(False)
        if o:
            peek = self.r.random() < .4
            self.f([[LAM, [], [S("letrec-values"), [[[S("go")], [LAM, [S("n")], [S("let-values"), [[[S("c")], [S("peek-char" if peek else "read-char")] + args]],
                   [S("if"), EOFP(S("c")), S("n"), [BEGIN, [S("put-char"), S(o[0]), [S("read-char")] + args if peek else S("c")], [S("go"), [S("+"), S("n"), 1]]]]]]]],
                    [S("go"), 0]]]])

    def chunk(self):
        r = self.r
        return "".join(r.choice("abcdefghij \n\t\"()\xff\x80") for _ in range(r.choice([0, 1, 3, 10, 40]) if r.random() < .96 else r.choice([1000, 4096, 5000])))

    def write(self):
        r = self.r
        o = self.pick(False)
        if o is None:
            return
        p = S(o[0])
        k = r.randrange(9)
        if k == 0:
            self.f([S("put-char"), p, Char(chr(r.randrange(1, 256)))])
        elif k == 1:
            self.f([S("write-char"), Char(r.choice("ab\n \xff")), p])
        elif k == 2:
            s = self.chunk()
            n = len(s)
            a = r.randint(0, n)
            self.f([S("put-string"), p, lit(s)] + r.choice([[], [a], [a, r.randint(0, n - a)], [0, n]]))
        elif k == 3:
            self.f([S("newline"), p])
        elif k == 4:
            self.f([S("fprintf"), p, Str(r.choice(["~a~%", "[~s]", "~~~a", "~s "])), Q(gendata.data(r, 1))])
        elif k == 5:
            self.f([S(r.choice(["write", "display"])), Q(gendata.data(r, 2)), p])
        elif k == 6:
            self.f([S("put-datum"), p, Q(gendata.data(r, 2))])
        elif k == 7:
            self.f([S("display"), lit(self.chunk()), p])
        else:
            self.f([S("flush-output-port"), p])

    def step(self):
        r = self.r
        k = r.randrange(20)
        if k < 3 or not self.ports:
            self.open()
        elif k < 9:
            self.read()
        elif k < 15:
            self.write()
        elif k < 17:
            o = self.pick(False, kind="string")
            if o:
                self.f([S("get-output-string"), S(o[0])])
        elif k == 17:
            p = self.pick()
            if p:
                self.f([S("close-input-port" if p[2] else "close-output-port"), S(p[0])])
                p[3] = False
                if p[1] == "file" and not p[2] and r.random() < .8:
                    self.add("file", True, [S("open-input-file"), Str(p[4])], p[4])
        elif k == 18:
            p = self.pick(op=False)         # closing again is harmless
            if p:
                self.f([S("close-input-port" if p[2] else "close-output-port"), S(p[0])])
            elif r.random() < .3:
                self.f([S("close-output-port"), [S("current-output-port")]])
                self.f([S("display"), Str("still open")])
        else:
            self.f([S("map"), [LAM, [S("x")], [S("list"), [S("input-port?"), S("x")], [S("output-port?"), S("x")], [S("string-port?"), S("x")]]],
                    [S("list")] + [S(p[0]) for p in self.ports] + [5, Str("p"), Q(S("p"))]])

    def wrong(self):
        r = self.r
        p = r.choice(self.ports)
        v = S(p[0])
        ch, st = Char("x"), Str("xyz")
        outs = [[S("put-char"), v, ch], [S("write-char"), ch, v], [S("put-string"), v, st], [S("newline"), v], [S("write"), 5, v], [S("display"), st, v],
                [S("put-datum"), v, Q(S("q"))], [S("fprintf"), v, Str("a")], [S("flush-output-port"), v], [S("get-output-string"), v]]
        ins = [[S("read-char"), v], [S("peek-char"), v], [S("read"), v], [S("char-ready?"), v]]
        if r.random() < .1:
            return [S(r.choice(["open-input-file", "open-output-file"])), r.choice([Str("missing_dir/x"), Str("no_such_dir/y.txt"), 5, Q(S("f"))])]
        if p[3]:
            return r.choice([x for x in (outs if p[2] else ins + ([[S("get-output-string"), v]] if p[1] == "file" else []))] +
                            [[S("close-output-port" if p[2] else "close-input-port"), v]])
        return r.choice(ins if p[2] else outs[:-1] if p[1] == "file" else outs)

    def program(self):
        r = self.r
        for _ in range(r.choice([8, 20, 40, 60])):
            self.step()
        if r.random() < .4 and self.ports:
            w = self.wrong()
            if r.random() < .3:
                w = [S("list"), 1, w]
            self.f(w)
        return self.forms


def expect(h):
    fs = dict(h.files)
    it = IoInterp(fs, h.stdin)
    it.limit = 400000
    try:
        _, e = it.run(h.forms)
    except (TooLong, Skip, RecursionError):
        return None
    it.end()
    return "".join(it.out), e, fs


def big(r, srv, ck, k, tmp):
    """bulk transfers with a result that needs no model of the evaluator"""
    n = r.choice([4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, r.randint(1, 20000)]) if r.random() < .9 else 1000003
    step = r.choice([1, 1, 7, 100, 4096, 5000])
    unit = "".join(chr(r.choice([r.randrange(1, 256), 97 + r.randrange(26)])) for _ in range(step))
    n = max(1, n // step) if step > 1 else min(n, 70000)
    data = unit * n
    lines = []
    nm = "big%d.txt" % k
    lines.append("(define-values (o) %s)" % ('(open-output-file "%s")' % nm if k % 2 else "(open-output-string)"))
    lines.append("(letrec-values ([(go) (lambda (i) (if (= i 0) 'done (begin (%s) (go (- i 1)))))]) (go %d))" % (
        "put-char o %s" % write(Char(unit)) if step == 1 else r.choice(["put-string o %s", "display %s o"]) % write(lit(unit)), n))
    if k % 2:
        lines.append("(close-output-port o)")
        lines.append('(define-values (a) (open-input-file "%s"))' % nm)
        lines.append('(define-values (b) (open-input-file "%s"))' % nm)
    else:
        lines.append("(define-values (s) (get-output-string o))")
        lines.append("(string-length s)")
        lines.append("(define-values (a) (open-input-string s))")
        lines.append("(define-values (b) (open-input-string s))")
    # b runs ahead of a by one character in every step, and peeks
    lines.append("(letrec-values ([(go) (lambda (i) (let-values ([(p) (peek-char a)] [(x) (read-char a)]) (if (eof-object? x) (list i (eof-object? p) (eof-object? (read-char a))) "
                 "(let-values ([(y) (read-char b)]) (if (if (equal? x y) (equal? x p) #f) (go (+ i 1)) (list 'differ i x y p))))))]) (go 0))")
    lines.append("(eof-object? (read-char b))")
    if k % 2:
        lines.append('(define-values (a) (open-input-file "%s"))' % nm)
    else:
        lines.append("(define-values (a) (open-input-string s))")
    lines.append("(letrec-values ([(go) (lambda () (let-values ([(x) (read-char a)]) (if (eof-object? x) 'end (begin (write-char x) (go)))))]) (go))")
    L = len(data)
    want = "#<void>\n" + "done\n"
    want += "#<void>\n#<void>\n#<void>\n" if k % 2 else "#<void>\n%d\n#<void>\n#<void>\n" % L
    want += "(%d #t #t)\n#t\n#<void>\n%send\n#<end>\n" % (L, data)
    return "\n".join(lines), want.encode("latin1"), (nm, data.encode("latin1")) if k % 2 else None


def many(r, n):
    """thousands of ports opened and closed, one after another"""
    return ("(letrec-values ([(go) (lambda (i) (if (= i 0) 'done (let-values ([(p) (open-input-string \"x y\")] [(o) (open-output-string)]) (begin (write (read p) o) "
            "(if (equal? (get-output-string o) \"x\") (if (eq? (read p) 'y) (begin (close-input-port p) (close-output-port o) (go (- i 1))) 'bad) 'worse)))))]) (go %d))" % n,
            b"done\n#<end>\n")


def main():
    ck = vp.Check("C15", RULE)
    r = ck.rng
    n = ck.n(1200, 9000)
    nb = ck.n(60, 500)
    servers = [("asan", ck.server("asan")), ("plain", ck.server("plain"))]

    def make(base, k):
        out = []
        for i in range(k):
            h = History(r, "h%d" % (base + i))
            h.program()
            w = expect(h)
            if w is None:
                ck.count("histories outside of the model")
                continue
            out.append((h, w))
            ck.count("ports", len(h.ports))
            ck.count("operations", len(h.forms))
            ck.count("characters written to files", sum(len(x) for x in w[2].values()))
            if w[1]:
                ck.count("ending in an error: " + w[1].kind)
        return out
    try:
        for base in range(0, n, 500):
            hs = big_stack(lambda: make(base, min(500, n - base)))
            for v, srv in servers:
                part = hs if ck.thorough else [x for i, x in enumerate(hs) if (i % 2 == 0) == (v == "asan")]
                texts = ["\n".join(write(f) for f in h.forms) for h, _ in part]
                for h, _ in part:
                    for p in h.paths:
                        if os.path.exists(os.path.join(srv.dir, p)):
                            os.unlink(os.path.join(srv.dir, p))
                    for p, c in h.files.items():
                        with open(os.path.join(srv.dir, p), "wb") as f:
                            f.write(c.encode("latin1"))
                rs = srv.run([dict(mode="evalw", text=t, stdin=h.stdin) for (h, _), t in zip(part, texts)], cpu=20)
                for i, ((h, w), t, x) in enumerate(zip(part, texts, rs)):
                    ck.observe(t)
                    ck.count("histories on " + v)
                    b = mon.judge(w[:2], x)
                    if b is None:
                        for p in h.paths:
                            f = os.path.join(srv.dir, p)
                            got = open(f, "rb").read().decode("latin1") if os.path.exists(f) else None
                            if got != w[2].get(p):
                                b = "the file %s holds %r, expected %r" % (p, got and got[:300], (w[2].get(p) or "")[:300])
                            ck.count("files compared")
                    if b:
                        ck.violate("history", "%s build: %s\nstandard input: %r\nfiles: %r\nprogram:\n%s\nexpected output:\n%s(error: %s)\nobserved: %s" % (
                            v, b, h.stdin[:300], {k: c[:200] for k, c in h.files.items()}, t[-5000:], w[0][-2000:], w[1] and w[1].kind, x.brief()), t)
                    elif i % max(1, len(part) // 6) == 0:
                        ck.sample(t[:500])
                    for p in h.paths:
                        f = os.path.join(srv.dir, p)
                        if os.path.exists(f):
                            os.unlink(f)
            if len(ck.viol) > 5:
                break
        v, srv = servers[1]
        bs = [big(r, srv, ck, k, srv.dir) for k in range(nb)]
        ms = [many(r, r.choice([500, 1200, 3000])) for _ in range(3)]
        rs = srv.run([dict(mode="evalw", text=b[0]) for b in bs + ms], cpu=60)
        for b, x in zip(bs + ms, rs):
            ck.observe(b[0])
            ck.count("bulk transfers")
            bad = x.kind != "exit" or x.code != 0 or x.out != b[1]
            if not bad and len(b) > 2 and b[2]:
                f = os.path.join(srv.dir, b[2][0])
                bad = open(f, "rb").read() != b[2][1] if os.path.exists(f) else True
            if bad:
                ck.violate("bulk", "plain build: a bulk transfer differs\nprogram:\n%s\nexpected (%d bytes) ...%r\nobserved: %s ...%r" % (
                    b[0][-3000:], len(b[1]), b[1][-200:], x.brief()[:600], x.out[-200:]), b[0])
    finally:
        for _, s in servers:
            s.close()
    ck.finish()


if __name__ == "__main__":
    vp.main(main)
