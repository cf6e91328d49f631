#!/usr/bin/env python3
import _p
import os, posixpath, random, shutil, subprocess
import vp, mon
from sexp import *

RULE = ("generated directory trees of files that load each other by relative and absolute paths, through links, after changes of directory and under handled errors; every file "
        "traces what it does, the directory it is in and the value of every load, and the trace must be the model's; files written by relative paths must be where the model "
        "puts them; random paths through the library's path procedures compared with the path syntax; a case is one run or one path expression")
PRE = "(define-values (n) 0)\n(define-values (tick) (lambda () (begin (set! n (+ n 1)) (display n) (newline))))\n"
HANDLER = "(current-error-handler (lambda (x) (begin (display \"[handled]\") (newline) 'hv)))\n"
NAMES = ["a", "b", "dir", "x.y", "with space", "..z", "u_1", "long" * 20]


def lit(s):
    return write(Str(s))


class Abandon(Exception):
    pass


class Stop(Exception):
    pass


class Tree:
    def __init__(self, r, root):
        self.r, self.root = r, root
        self.dirs = [root]
        for _ in range(r.choice([1, 2, 4, 7])):
            d = os.path.join(r.choice(self.dirs), r.choice(NAMES))
            if len(d) < 700 and not os.path.lexists(d):
                os.makedirs(d)
                self.dirs.append(d)
        self.files, self.code, self.ndef = [], {}, 0
        k = r.choice([2, 3, 5, 9])
        for i in range(k):
            f = os.path.join(r.choice(self.dirs), "f%d%s" % (i, r.choice([".min", "", ".ss", " s.min"])))
            self.files.append(f)
        self.alias = {f: [f] for f in self.files}
        for i, f in enumerate(self.files):
            if r.random() < .3:
                a = os.path.join(r.choice(self.dirs), "l%d.min" % i)
                os.symlink(f if r.random() < .5 else os.path.relpath(f, os.path.dirname(a)), a)
                self.alias[f].append(a)
        for i in range(r.choice([0, 0, 1, 2])):
            a = os.path.join(r.choice(self.dirs), "ld%d" % i)
            os.symlink(r.choice(self.dirs), a)
            self.dirs.append(a)
            for f in self.files:
                if os.path.dirname(f) == os.path.realpath(a):
                    self.alias[f].append(os.path.join(a, os.path.basename(f)))
        for i in range(k - 1, -1, -1):
            self.fill(i)

    def path(self, target, base):
        """a way to write target from base"""
        r = self.r
        k = r.random()
        if k < .15:
            return target
        p = os.path.relpath(target, base)
        if r.random() < .2:
            p = "./" + p
        if r.random() < .15:
            d = r.choice(self.dirs)
            p = os.path.join(os.path.relpath(d, base), os.path.relpath(target, os.path.realpath(d)))
        if r.random() < .1:
            p = p.replace("/", "//", 1)
        return p

    def fill(self, i):
        """forms of file i, which loads only later files or itself"""
        r = self.r
        base = os.path.dirname(self.files[i])
        out = []
        for _ in range(r.choice([0, 1, 2, 3, 5, 7])):
            k = r.random()
            later = self.files[i + 1:]
            if k < .35 and later:
                t = r.choice(self.alias[r.choice(later)])
                out.append(("load", self.path(t, base if r.random() < .85 else os.path.dirname(r.choice(self.files))), r.randrange(3)))
            elif k < .5:
                out.append(("cwd",))
            elif k < .62:
                out.append(("cd", self.path(r.choice(self.dirs), base) if r.random() < .8 else r.choice(["nowhere", ".", "..", "./", os.path.relpath(self.root, base)])))
            elif k < .72:
                out.append(("tick",))
            elif k < .78:
                out.append(("err", r.choice(["(car 5)", "(vector-ref (vector) 1)", "(raise 'oops)", "(error 'who \"msg\")"])))
            elif k < .83:
                out.append(("self", r.choice([1, 2, 3])))
            elif k < .88:
                out.append(("out", "o%d_%d.txt" % (i, r.randrange(1000))))
            elif k < .91:
                out.append(("missing", r.choice(["nope.min", "../nope/f.min", "/nonexistent/x.min", ""])))
            elif k < .95:
                self.ndef += 1
                out.append(("def", "d%d" % self.ndef))
            elif k < .98:
                out.append(("bad", r.choice(["(if)", "(lambda)", "(let-values ([5 6]) 7)", ")", "#<nonsense>", "(define-values x 1)"])))
            else:
                out.append(("eof", r.choice(["(display \"not closed\"", "\"string", "'", "#(1 2", "#| comment"])))
                break
        k = r.random()
        if out and out[-1][0] == "eof":
            pass
        elif k < .6:
            out.append(("val", r.randrange(1000)))
        elif k < .7 and out:
            out.append(("vals",))
        self.code[self.files[i]] = out
        with open(self.files[i], "wb") as f:
            f.write(self.text(self.files[i], out).encode("latin1"))

    def text(self, f, code):
        t = []
        me = os.path.basename(f)
        for c in code:
            k = c[0]
            if k == "load":
                t.append(["(begin (display \"v=\") (write (list (load %s))) (newline))", "(let-values ([(v) (load %s)]) (begin (write v) (newline)))",
                          "((lambda (x y) (begin (write y) (newline) x)) (tick) (load %s))"][c[2]] % lit(c[1]))
            elif k == "cwd":
                t.append("(begin (write (current-directory)) (newline))")
            elif k == "cd":
                t.append("(begin (list (current-directory %s)) (void))" % lit(c[1]))
            elif k == "tick":
                t.append("(tick)")
            elif k == "err":
                t.append("(begin (write (list %s)) (newline))" % c[1])
            elif k == "self":
                t.append("(if (< n %d) (begin (tick) (write (list (load %s))) (newline)) 'deep)" % (c[1] * 5, lit(me)))
            elif k == "out":
                t.append("(let-values ([(p) (open-output-file %s)]) (begin (write (current-directory) p) (close-output-port p)))" % lit(c[1]))
            elif k == "missing":
                t.append("(begin (list (load %s)) (void))" % lit(c[1]))
            elif k == "def":
                t.append("(define-values (%s) (begin (tick) n))" % c[1])
                t.append("(begin (write %s) (newline))" % c[1])
            elif k in ("bad", "eof"):
                t.append(c[1])
            elif k == "val":
                t.append(str(c[1]) if self.r.random() < .5 else "(if #t %d 0)" % c[1])
            elif k == "vals":
                t.append("(string-append \"last\" \"value\")")
        sep = self.r.choice(["\n", "\n\n; comment\n", " "])
        return sep.join(t) + self.r.choice(["", "\n", " ; end\n"])


class Model:
    def __init__(self, tree, cwd, handler):
        self.t, self.cwd, self.h = tree, cwd, handler
        self.out, self.n, self.files, self.loads, self.depth = [], 0, {}, 0, 0

    def p(self, s):
        self.out.append(s)

    def tick(self):
        self.n += 1
        self.p("%d\n" % self.n)

    def failed(self):
        """an error: what the handler's value is, or the end"""
        if not self.h:
            raise Stop()
        self.p("[handled]\n")
        return "hv"

    def load(self, path):
        """-> written value"""
        full = os.path.join(self.cwd, path)
        if not path or not os.path.isfile(full):
            return self.failed()
        real = os.path.realpath(full)
        self.loads += 1
        self.depth += 1
        if self.loads > 400 or self.depth > 30:
            raise OverflowError
        old = self.cwd
        self.cwd = os.path.dirname(real)
        v = "#<void>"
        try:
            for c in self.t.code[real]:
                v = self.form(c, real)
        except Abandon:
            v = "hv"
        self.cwd = old
        self.depth -= 1
        return v

    def form(self, c, real):
        k = c[0]
        if k == "load":
            if c[2] == 0:
                self.p("v=")
            elif c[2] == 2:
                self.tick()
            v = self.load(c[1])
            self.p(("(%s)\n" if c[2] == 0 else "%s\n") % v)
            return "#<void>"
        if k == "cwd":
            self.p(lit(self.cwd) + "\n")
        elif k == "cd":
            d = os.path.join(self.cwd, c[1])
            if os.path.isdir(d) and c[1]:
                self.cwd = os.path.realpath(d)
            else:
                self.failed()
        elif k == "tick":
            self.tick()
        elif k == "err":
            self.p("(%s)\n" % self.failed())
        elif k == "self":
            if self.n < c[1] * 5:
                self.tick()
                self.p("(%s)\n" % self.load(os.path.basename(real)))
            else:
                return "deep"
        elif k == "out":
            self.files[os.path.join(self.cwd, c[1])] = lit(self.cwd)
        elif k == "missing":
            self.load(c[1])
        elif k == "def":
            self.tick()
            self.p("%d\n" % self.n)
        elif k in ("bad", "eof"):
            self.failed()
            raise Abandon()
        elif k == "val":
            return str(c[1])
        elif k == "vals":
            return '"lastvalue"'
        return "#<void>"


def utf8ish(s):
    return s.encode("latin1")


def build(ck, r, i):
    root = os.path.join(os.path.realpath(ck.scratch), "t%d" % i)
    os.makedirs(root)
    t = Tree(r, root)
    start = r.choice([d for d in t.dirs if not os.path.islink(d)])
    start = os.path.realpath(start)
    handler = r.random() < .8
    forms = [("cwd",)]
    for _ in range(r.choice([1, 2, 4])):
        f = r.choice(t.files[:2] + [r.choice(t.files)])
        forms.append(("load", t.path(r.choice(t.alias[f]), start), r.randrange(3)))
        if r.random() < .5:
            forms.append(("cd", t.path(r.choice(t.dirs), start)))
        forms.append(("cwd",))
    m = Model(t, start, handler)
    code = 0
    try:
        for c in forms:
            m.form(c, None)
    except Stop:
        code = 1
    except (OverflowError, RecursionError):
        return None
    return t, start, PRE + (HANDLER if handler else "") + t.text(start, forms), m, code


# ---- path procedures

def relpath(r):
    return "/".join(r.choice(["a", "b", "..", ".", "file.txt", "x y", ".hidden", "A-b_c", "-", "e" * 40]) for _ in range(r.choice([1, 1, 2, 3, 5])))


def paths(r):
    """-> expression, expected written value"""
    k = r.randrange(6)
    L = lambda xs: "(" + " ".join(lit(x) for x in xs) + ")"
    base = r.choice(["", "/", "/"]) + relpath(r)
    if r.random() < .1:
        base = "/"
    if k == 0:
        subs = [relpath(r) for _ in range(r.choice([0, 1, 2, 3]))]
        args = [x for s in subs for x in ([s, ""] if r.random() < .15 else [s])]
        b = base + ("/" if r.random() < .2 and base != "/" else "")
        return "(build-path %s)" % " ".join(lit(x) for x in [b] + args), lit(posixpath.join(b, *subs))
    comps = (["/"] if base.startswith("/") else []) + [x for x in base.split("/") if x]
    if k == 1:
        return "(path->list %s)" % lit(base), L(comps)
    if k == 2:
        return "(path->list %s)" % lit(base + ("/" if len(comps) > 0 and base != "/" else "")), L(comps)
    if k == 3:
        if len(comps) == 1:
            return "(split-path %s)" % lit(base), "(#f . %s)" % lit(comps[0])
        return "(split-path %s)" % lit(base), "(%s . %s)" % (lit(posixpath.join(*comps[:-1])), lit(comps[-1]))
    if k == 4:
        return "(is-absolute-path? %s)" % lit(base if r.random() < .9 else ""), None
    return "(apply build-path (path->list %s))" % lit(base), lit(base)


def main():
    ck = vp.Check("C24", RULE)
    r = ck.rng
    n = ck.n(1600, 20000)
    servers = [("asan", ck.server("asan")), ("plain", ck.server("plain", env={"VP_NOFILE": "300"}))]
    b = vp.build("plain")

    def verdict(kind, t, start, text, m, code, out, err, rc, bad):
        want = "".join(m.out).encode("latin1")
        if not bad and out != want:
            k = next((i for i, (a, c) in enumerate(zip(out, want)) if a != c), min(len(out), len(want)))
            bad = "trace differs at byte %d: expected ...%r, observed ...%r" % (k, want[max(0, k - 80):k + 160], out[max(0, k - 80):k + 160])
        if not bad and rc != code:
            bad = "status %s, expected %d" % (rc, code)
        if not bad and code == 0 and err:
            bad = "unexpected error output %r" % err[:300]
        if not bad:
            for p, c in m.files.items():
                got = open(p, "rb").read().decode("latin1") if os.path.exists(p) else None
                ck.count("files written by relative path")
                if got != c:
                    bad = "the file %s holds %r, expected %r" % (p, got, c)
        ck.observe((text, tuple(t.code)))
        ck.count(kind)
        ck.count("loads", m.loads)
        if code:
            ck.count("runs that end with an unhandled error")
        if m.h and "".join(m.out).count("[handled]"):
            ck.count("handled errors", "".join(m.out).count("[handled]"))
        if bad:
            fs = "\n".join("--- %s\n%s" % (f, open(f, "rb").read().decode("latin1")) for f in t.files)
            ck.violate("load", "%s: %s\nstarted in %s\nprogram:\n%s\nfiles:\n%s\nlinks: %s\nobserved output: %r\nerror output: %r" % (
                kind, bad, start, text, fs[:6000], [a for v in t.alias.values() for a in v[1:]], out[:3000], err[:600]), text + "\n" + fs)
        elif m.loads > 5:
            ck.sample("%d loads: %s" % (m.loads, "".join(m.out)[:300].replace(ck.scratch, "")))

    try:
        for at in range(0, n, 400):
            cases = []
            for i in range(at, min(n, at + 400)):
                c = build(ck, r, i)
                if c is None:
                    ck.count("trees with too many loads")
                else:
                    cases.append(c)
            for v, s in servers:
                part = [c for i, c in enumerate(cases) if (i % 2 == 0) == (v == "asan")]
                rs = s.run([dict(mode="evalw", text=c[2], cwd=c[1]) for c in part], cpu=20)
                for (t, start, text, m, code), x in zip(part, rs):
                    # the writer prints the value of every form; the trace is made of the rest
                    out = x.out.replace(b"#<void>\n", b"").replace(b"#<end>\n", b"")
                    m.out = [y.replace("#<void>\n", "") for y in m.out]
                    bad = "abnormal end: %s" % x.crashed if x.crashed else "did not finish" if x.kind != "exit" else None
                    verdict("runs on " + v, t, start, text, m, code, out, x.err, x.code, bad)
            for t in cases:
                shutil.rmtree(t[0].root)
            if len(ck.viol) > 5:
                break
        # many loads: every file is closed again, whether it was read to its end or not
        for kind, body, v in (("abandoned", "(if)", "hv"), ("complete", "5", "5"), ("unreadable", ")", "hv")):
            d = os.path.join(os.path.realpath(ck.scratch), "many-" + kind)
            os.makedirs(d + "/in")
            with open(d + "/in/f.min", "w") as f:
                f.write("(define-values (x) 1)\n" + body)
            text = ("(define-values (count) 0)\n(current-error-handler (lambda (x) (begin (set! count (+ count 1)) 'hv)))\n"
                    "(define-values (go) (lambda (n) (if (= n 0) 'done (let-values ([(v) (load \"in/f.min\")]) (if (eq? v '%s) (go (- n 1)) (list n v))))))\n"
                    "(go 500)\ncount\n(current-directory)\n" % v)
            for name, s in servers[1:]:     # the ASan build never closes the ports it drops
                x = s.run([dict(mode="evalw", text=text, cwd=d)], cpu=60)[0]
                ck.observe((kind, name))
                ck.count("loads", 500)
                want = "#<void>\n#<void>\n#<void>\ndone\n%d\n%s\n#<end>\n" % (0 if kind == "complete" else 500, lit(d))
                if x.crashed or x.out.decode("latin1") != want:
                    ck.violate("many", "500 %s loads on %s: expected %r, observed %s" % (kind, name, want, x.brief()), text)
        # the command-line program: the file it is given is loaded like any other
        for i in range(ck.n(80, 600)):
            c = build(ck, r, n + i)
            if c is None:
                continue
            t, start, text, m, code = c
            main_dir = r.choice([os.path.realpath(d) for d in t.dirs])
            cwd = r.choice([os.path.realpath(d) for d in t.dirs])
            f = os.path.join(start, "main.min")
            with open(f, "wb") as g:
                g.write(text.encode("latin1"))
            a = r.choice([f, os.path.relpath(f, cwd), "./" + os.path.relpath(f, cwd)])
            x = subprocess.run([b + "/minim", "--no-libs", "-q", a.encode("latin1")], cwd=cwd.encode("latin1"), stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
            verdict("runs of the command-line program", t, start, text, m, code, x.stdout, x.stderr, x.returncode, None)
            shutil.rmtree(t.root)
    finally:
        for _, s in servers:
            s.close()
    # path procedures
    lib = ck.library()
    try:
        items = []
        for _ in range(ck.n(2500, 30000)):
            e, w = paths(r)
            if w is None:
                w = "#t" if e.startswith('(is-absolute-path? "/') else "#f"
            items.append((e, w))
        groups = [items[k:k + 100] for k in range(0, len(items), 100)]
        rs = lib.run([dict(mode="import", text='(import "lib/base.min")\n' + "\n".join("(begin (write %s) (newline))" % e for e, _ in g)) for g in groups], cpu=60)
        for g, x in zip(groups, rs):
            got = x.out.decode("latin1").split("\n")
            for i, (e, w) in enumerate(g):
                ck.observe(e)
                ck.count("path expressions")
                if x.crashed or i >= len(got) or got[i] != w:
                    ck.violate("path", "%s gives %s, expected %s (%s)" % (e, got[i] if i < len(got) else "nothing", w, x.brief()[-300:]), e)
                    break
    finally:
        lib.close()
    ck.finish()


if __name__ == "__main__":
    vp.main(main)
