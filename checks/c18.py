#!/usr/bin/env python3
import _p
import os, random, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import vp

RULE = ("random acyclic module graphs over nested directories, every body leaving a trace of its run and of the values and macros it sees; run through import on a "
        "system with the library loaded, and through the command line for graphs that use the core only; a case is one graph")

DIRS = ["", "a", "a/b", "c", "c/d/e", "lib-x"]
MARK = "~%s:"


class Name:
    """something a module defines: what an importer of it can do with the name"""

    def __init__(self, name, kind, mod, n):
        self.name, self.kind, self.mod, self.n = name, kind, mod, n
        self.count = 0

    def definition(self, core):
        n, x = self.name, self.n
        if self.kind == "const":
            return "(define-values (%s) %d)" % (n, x) if core else "(define %s %d)" % (n, x)
        if self.kind == "proc":
            return "(define-values (%s) (lambda (y) (list %d y)))" % (n, x) if core else "(define (%s y) (list %d y))" % (n, x)
        if self.kind == "counter":
            if core:
                return ("(define-values (%s-state) %d)\n(define-values (%s) (lambda () (begin (set! %s-state (+ %s-state 1)) %s-state)))" % ((n, x) + (n,) * 4))
            return "(define %s-state %d)\n(define (%s)\n  (set! %s-state (+ %s-state 1))\n  %s-state)" % ((n, x) + (n,) * 4)
        if self.kind == "box":
            return "(define-values (%s) (vector %d))" % (n, x)
        if self.kind == "swap":
            return "(define-syntax %s (syntax-rules () [(_ a b) (list %d b a)] [(_ a) (list 'one a %d)]))" % (n, x, x)
        if self.kind == "rev":
            return "(define-syntax %s (syntax-rules (=>) [(_ => a ...) (vector %d a ...)] [(_ (a b) ...) (list (list b ... ) (list a ...))]))" % (n, x)
        if self.kind == "def":
            return "(define-syntax %s (syntax-rules () [(_ v) (define v (list 'made %d))]))" % (n, x)

    def macro(self):
        return self.kind in ("swap", "rev", "def")

    def use(self, r, fresh):
        """-> (forms to write, text printed)"""
        n, x = self.name, self.n
        if self.kind == "const":
            return "(display %s)" % n, str(x)
        if self.kind == "proc":
            k = r.randrange(100)
            return "(display (%s %d))" % (n, k), "(%d %d)" % (x, k)
        if self.kind == "counter":
            self.count += 1
            return "(display (%s))" % n, str(x + self.count)
        if self.kind == "box":
            old = x + self.count
            self.count += 1
            return "(display (vector-ref %s 0))\n(vector-set! %s 0 %d)" % (n, n, x + self.count), str(old)
        if self.kind == "swap":
            if r.random() < .5:
                return "(display (%s 1 (list 2)))" % n, "(%d (2) 1)" % x
            return "(display (%s 'q))" % n, "(one q %d)" % x
        if self.kind == "rev":
            if r.random() < .5:
                return "(display (%s => 1 2 3))" % n, "#(%d 1 2 3)" % x
            return "(display (%s (1 2) (3 4)))" % n, "((2 4) (1 3))"
        if self.kind == "def":
            v = fresh()
            return "(%s %s)\n(display %s)" % (n, v, v), "(made %d)" % x


class Mod:
    def __init__(self, i, d, core):
        self.i, self.dir, self.core = i, d, core
        self.path = (d + "/" if d else "") + "m%d.min" % i
        self.imports = []           # modules, in the order they are imported
        self.own = []
        self.exports = {}           # visible name -> Name
        self.text = self.out = None


def rel(frm, to, r):
    """a path that leads from the directory frm to the file to, by a random route"""
    f = [x for x in frm.split("/") if x]
    t = to.split("/")
    k = 0
    while k < len(f) and k < len(t) - 1 and f[k] == t[k]:
        k += 1
    if r.random() < .3:
        k = r.randrange(k + 1)
    parts = [".."] * (len(f) - k) + t[k:]
    while r.random() < .25:
        j = r.randrange(len(parts))
        if r.random() < .5:
            parts.insert(j, ".")
        else:
            # through a directory that exists there
            here = f[:]
            ok = True
            for p in parts[:j]:
                if p == "..":
                    if not here:
                        ok = False
                        break
                    here.pop()
                elif p != ".":
                    here.append(p)
            subs = sorted({x[len("/".join(here)) + (1 if here else 0):].split("/")[0] for x in DIRS
                           if x and (not here or x.startswith("/".join(here) + "/"))} - {""}) if ok else []
            if subs:
                parts[j:j] = [r.choice(subs), ".."]
    return ("/" if r.random() > .1 else "//").join(parts) if len(parts) > 1 else parts[0]


class Graph:
    """builds the modules in an order in which imports come first; the trace is computed by running the root"""

    def __init__(self, r, tag, prefix, base, fault=None, core=None, size=None):
        self.r, self.tag, self.prefix, self.base = r, tag, prefix, base
        self.k = 0
        n = size or r.choice([1, 2, 3, 3, 4, 5, 6, 8, 10])
        allcore = core if core is not None else r.random() < .15
        self.mods = []
        for i in range(n):
            m = Mod(i, r.choice(DIRS), allcore or r.random() < .1)
            cand = self.mods[:]
            r.shuffle(cand)
            k = min(len(cand), r.choice([0, 1, 1, 2, 2, 3, 4]))
            if i == n - 1 and cand:
                k = max(k, min(len(cand), r.choice([1, 2, 3, 5, len(cand)])))
            m.imports = cand[:k]
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                kinds = ["const", "proc", "counter", "box"] + ([] if m.core else ["swap", "rev", "def"])
                m.own.append(Name(self.fresh(), r.choice(kinds), m, r.randrange(1, 1000)))
            self.exports(m)
            self.mods.append(m)
        self.root = self.mods[-1]
        self.fault = fault
        self.bad = None
        if fault:
            reach = self.reach()
            self.bad = r.choice(reach)
        self.ran, self.trace, self.stopped = [], [], False
        self.order = []

    def fresh(self):
        self.k += 1
        return "%s%d" % (self.r.choice(["v", "name", "x", "get-", "foo!", "q?", "->z"]), self.k)

    def reach(self):
        seen, todo = [], [self.root]
        while todo:
            m = todo.pop()
            if m not in seen:
                seen.append(m)
                todo.extend(m.imports)
        return seen

    def visible(self, m):
        d = {}
        for x in m.imports:
            d.update(x.exports)
        return d

    def exports(self, m):
        r = self.r
        m.clauses = []
        vis = self.visible(m)
        for x in m.own:
            if r.random() < .75:
                m.exports[x.name] = x
                m.clauses.append(x.name)
        for nm, x in sorted(vis.items()):
            if r.random() < .15:
                m.exports[nm] = x
                m.clauses.append(nm)
        for x in m.imports:
            if r.random() < .2:
                m.exports.update(x.exports)
                m.clauses.append(x)
        if m.clauses and r.random() < .1:
            c = r.choice(m.clauses)
            m.clauses.append(c)         # the same name twice
        r.shuffle(m.clauses)

    def run(self, m):
        """the run of module m: its imports, in order, then its body"""
        if m in self.ran or self.stopped:
            return
        r = self.r
        self.ran.append(m)
        fault = self.fault if m is self.bad else None
        heads, body, out = [], [], []
        own = {x.name: x for x in m.own}
        vis = self.visible(m)
        if not m.core:
            heads.append(("import", ['"%s"' % self.base(m)]))
        where = r.randrange(len(m.imports) + 1)
        for j, x in enumerate(m.imports):
            if fault == "missing" and j == where:
                heads.append(("import", ['"%s"' % r.choice(["nothere.min", "../a/nothere.min", "nodir/m0.min"])]))
            heads.append(("import", ['"%s"' % rel(m.dir, x.path, r)]))
            if r.random() < .15:
                heads.append(("import", ['"%s"' % rel(m.dir, x.path, r)]))      # once more
        if fault == "missing" and where == len(m.imports):
            heads.append(("import", ['"%s"' % "nothere.min"]))
        # run the imports
        done = 0
        for j, x in enumerate(m.imports):
            if fault == "missing" and j == where:
                break
            self.run(x)
            if self.stopped:
                break
            done += 1
        # join clauses
        if r.random() < .5:
            j = 0
            while j + 1 < len(heads):
                if r.random() < .6:
                    heads[j] = ("import", heads[j][1] + heads[j + 1][1])
                    del heads[j + 1]
                else:
                    j += 1
        cl = [c if isinstance(c, str) else '(all "%s")' % rel(m.dir, c.path, r) for c in m.clauses]
        if fault == "export-undefined":
            cl.insert(r.randrange(len(cl) + 1), self.hidden(m, vis, own))
        if fault == "export-all":
            cl.insert(r.randrange(len(cl) + 1), '(all "%s")' % r.choice(["nothere.min", "m99.min"] + [rel(m.dir, x.path, r) for x in self.mods if x not in m.imports]))
        ex = []
        while cl:
            k = r.randrange(1, len(cl) + 1)
            ex.append("(export %s)" % " ".join(cl[:k]))
            cl = cl[k:]
        # body: definitions first, uses of everything visible after
        shadow = {}
        forms = []
        for x in m.own:
            forms.append(x.definition(m.core))
        private = "helper"
        pv = 1000 + m.i
        forms.append(("(define-values (%s) (lambda () %d))" if m.core else "(define (%s) %d)") % (private, pv))
        if r.random() < .5:
            r.shuffle(forms)
        for nm, x in sorted(vis.items()):
            if not x.macro() and nm not in m.exports and r.random() < .06:
                shadow[nm] = r.randrange(2000, 3000)
                forms.append("(define-values (%s) %d)" % (nm, shadow[nm]))
        uses = list(vis.items()) + list(own.items())
        r.shuffle(uses)
        body.append('(display "%s")' % (MARK % m.i))
        out.append(MARK % m.i)
        bodyuses = []
        for nm, x in uses[:12]:
            if nm in shadow:
                t, o = "(display %s)" % nm, str(shadow[nm])
            elif x.kind == "def" and m.core:
                continue
            elif x.macro() and m.core and x.kind == "rev":
                continue
            else:
                t, o = x.use(r, self.fresh) if not self.stopped else ("", "")
            bodyuses.append((t, o))
        bodyuses.append(("(display (%s))" % private, str(pv)))
        if r.random() < .3:
            bodyuses.append(("(helper)", "%d\n" % pv))         # results of top-level forms are written
        if r.random() < .1:
            bodyuses.append(("(values 1 \"two\")", "1\n\"two\"\n"))
        for t, o in bodyuses:
            body.append(t)
            body.append('(display " ")')
            out += [o, " "]
        body.append('(display ".")')
        out.append(".")
        if fault == "unbound":
            u = self.hidden(m, vis, own)
            forms_ = ["(display %s)" % u, "(display (lambda () %s))" % u, "(display (if #t 1 (%s 2)))" % u, "(%s)" % u,
                      "(define-values (zz) (lambda (a) (let-values ([(b) %s]) b)))" % u, "(display (begin 1 %s))" % u]
            body.insert(r.randrange(1, len(body) + 1), r.choice(forms_))
            self.unbound = u
        if fault == "duplicate":
            x = "dup-%d" % m.i
            c = r.randrange(4)
            if c == 0:
                add = ["(define-values (%s) 1)" % x, "(define-values (%s) 2)" % x]
            elif c == 1:
                add = ["(define-values (%s) 1)" % x, "(define-values (k-1 %s) (values 1 2))" % x]
            elif c == 2:
                add = ["(define-values (%s k-2) (values 1 2))" % x, "(define-values (%s) (lambda () 1))" % x]
            else:
                add = ["(define-values (%s) 1)" % x, "(define-values (%s) 1)" % x]
            for f in add:
                body.insert(r.randrange(1, len(body) + 1), f)
            self.unbound = x
        # where the import and export forms are
        hs = ["(import %s)" % " ".join(h) for _, h in heads]
        top = [("h", h) for h in hs]
        rest = [("b", t) for t in forms + body if t]
        for e in ex:
            k = r.randrange(len(top) + len(rest) + 1)
            if k <= len(top):
                # an (all) export needs its import before it
                rest.insert(0, ("e", e))
            else:
                rest.insert(k - len(top), ("e", e))
        if len(top) > 1 and r.random() < .2:
            # an import after the body's first forms still runs before the body
            rest.insert(r.randrange(len(rest) + 1), top.pop())
            es = [t for t in rest if t[0] == "e" and "(all" in t[1]]
            rest = [t for t in rest if t not in es] + es
        m.text = "".join("%s\n" % t for _, t in top + rest)
        if self.stopped:
            return
        if fault:
            self.stopped = True
            self.own_out = "".join(out)
            return
        self.trace.append("".join(out))
        self.order.append(m.i)

    def hidden(self, m, vis, own):
        """a name the module does not see"""
        r = self.r
        xs = []
        for x in self.mods:
            for y in x.own:
                if y.name not in vis and y.name not in own:
                    xs += [y.name] * 3
                if y.kind == "counter" and x is not m:
                    xs.append(y.name + "-state")
        xs += ["not-there", "merge-xforms", "read/module", "expand", "$load-module", "list->set*", "helper2"]
        if m.core:
            xs += ["unless", "let*", "define", "syntax-rules"]
        return r.choice(xs)

    def build(self):
        self.run(self.root)
        for m in self.mods:
            if m.text is None:
                m.text = '(display "%s")\n' % (MARK % m.i)      # not reachable: must not run
        return {self.prefix + m.path: m.text for m in self.mods}

    def judge(self, x):
        if x.crashed or x.kind != "exit":
            return "abnormal end"
        out = x.out.decode("latin1")
        want = "".join(self.trace)
        if not self.stopped:
            if x.code != 0 or x.err:
                return "expected a normal end"
            if out != want:
                return "trace differs"
            return None
        if x.code != 1:
            return "expected status 1 (%s)" % self.fault
        if not out.startswith(want):
            return "trace of the imported modules differs"
        rest = out[len(want):]
        marks = set(re.findall(r"~(\d+):", rest)) - {str(self.bad.i)}
        if marks or rest.count(MARK % self.bad.i) > 1:
            return "a module ran that must not (%s)" % self.fault
        if not (x.err or len(rest) > len(self.own_out)
                or not self.own_out.startswith(rest)):
            return "no report"
        if self.fault in ("unbound", "duplicate") and self.unbound not in rest + x.err.decode("latin1"):
            return "the report does not name %s" % self.unbound
        return None


FAULTS = ["missing", "unbound", "duplicate", "export-undefined", "export-all"]


def put(root, files):
    for p, t in files.items():
        q = os.path.join(root, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "w") as f:
            f.write(t)


def note(g, files, x):
    return "graph, root %s%s\n%s\nexpected trace %r%s\nobserved %s" % (
        g.prefix + g.root.path, "" if not g.fault else ", fault %s in %s" % (g.fault, g.bad.path),
        "".join("--- %s\n%s" % f for f in files.items()), "".join(g.trace), " then an error" if g.stopped else "", x.brief())


def tally(ck, g):
    ck.count("modules", len(g.mods))
    ck.count("module bodies run", len(g.order))
    ck.count("imports", sum(len(m.imports) for m in g.reach()))
    n = {}
    for m in g.reach():
        for x in m.imports:
            n[x.i] = n.get(x.i, 0) + 1
    ck.count("modules with several importers", sum(v > 1 for v in n.values()))
    ck.count("exports that pass an import on", sum(1 for m in g.mods for x in m.exports.values() if x.mod is not m))
    if g.fault:
        ck.count("fault: " + g.fault)


def library_stage(ck, r, srv, n, what):
    for base in range(0, n, 200):
        gs = []
        for k in range(base, min(n, base + 200)):
            pre = "g%d/" % k
            def lib(m, pre=pre):
                depth = len([x for x in (pre + m.dir).split("/") if x])
                t = "../" * depth + "lib/base.min"
                if m.dir and r.random() < .2:
                    t = "../" + m.dir.split("/")[-1] + "/" + t
                return t
            gs.append(Graph(r, what, pre, lib, fault=r.choice(FAULTS) if r.random() < .3 else None))
        jobs, fs = [], []
        for g in gs:
            files = g.build()
            for d in DIRS:
                os.makedirs(os.path.join(srv.dir, g.prefix, d), exist_ok=True)
            put(srv.dir, files)
            fs.append(files)
            p = g.prefix + g.root.path
            c = r.random()
            if c < .25:
                jobs.append(dict(mode="import", path=os.path.join(srv.dir, p)))
            elif c < .5:
                jobs.append(dict(mode="import", path=p))
            elif c < .75:
                jobs.append(dict(mode="import", path=g.root.path, cwd=os.path.join(srv.dir, g.prefix)))
            else:
                jobs.append(dict(mode="import", path=rel("a/b", g.root.path, r), cwd=os.path.join(srv.dir, g.prefix, "a/b")))
        for g, files, j, x in zip(gs, fs, jobs, srv.run(jobs, cpu=30)):
            ck.observe(tuple(files.items()))
            ck.count("graphs, " + what)
            tally(ck, g)
            b = g.judge(x)
            if b:
                ck.violate("graph", "%s: %s\njob %s\n%s" % (what, b, j, note(g, files, x)), "".join("--- %s\n%s" % f for f in files.items()))
            elif g.mods[-1].i == 2:
                ck.sample("".join("--- %s\n%s" % f for f in files.items())[:900])
        for g in gs:
            shutil.rmtree(os.path.join(srv.dir, g.prefix), ignore_errors=True)
        if len(ck.viol) > 5:
            return


class Cli:
    def __init__(self, r):
        self.code, self.out, self.err = r.returncode, r.stdout, r.stderr
        self.kind, self.crashed = "exit", None if r.returncode in (0, 1) else "status %d" % r.returncode

    def brief(self):
        return "status %s, stdout %r, stderr %r" % (self.code, self.out[:1500], self.err[:800])


def cli_stage(ck, r, n, regen, what):
    """graphs of core-only modules, each run by the command line from some directory"""
    b = vp.build("plain", regen=regen)
    top = tempfile.mkdtemp(prefix="cli-", dir=ck.scratch)
    work = []
    for k in range(n):
        g = Graph(r, what, "h%d/" % k, None, fault=r.choice(FAULTS) if r.random() < .3 else None, core=True)
        files = g.build()
        for d in DIRS:
            os.makedirs(os.path.join(top, g.prefix, d), exist_ok=True)
        put(top, files)
        d = r.choice(DIRS)
        p = rel(d, g.root.path, r) if r.random() < .7 else os.path.join(top, g.prefix, g.root.path)
        work.append((g, files, d, p, r.random() < .5))

    def one(w):
        g, files, d, p, quiet = w
        try:
            x = Cli(subprocess.run([b + "/minim"] + ["-q"] * quiet + [p], cwd=os.path.join(top, g.prefix, d), stdin=subprocess.DEVNULL, capture_output=True, timeout=100))
            if not quiet and x.out.startswith(b"Minim v"):
                x.out = x.out[x.out.index(b"\n") + 1:]
            return x
        except subprocess.TimeoutExpired:
            return None
    with ThreadPoolExecutor(vp.NCPU) as ex:
        runs = list(ex.map(one, work))
    for (g, files, d, p, q), x in zip(work, runs):
        if x is None:
            ck.violate("cli", "%s: the command line does not end\n%s" % (what, files), repr(files))
            continue
        ck.observe(tuple(files.items()))
        ck.count("graphs, " + what)
        tally(ck, g)
        bad = g.judge(x)
        if bad:
            ck.violate("cli", "%s: %s\nminim %s in %s\n%s" % (what, bad, p, d or "the graph's directory", note(g, files, x)), "".join("--- %s\n%s" % f for f in files.items()))
    shutil.rmtree(top, ignore_errors=True)


def deep(ck, srv):
    """a chain, a wide fan and a ladder of diamonds: each body runs once although 2^k paths lead to it"""
    for kind in ("chain", "fan", "ladder"):
        files, order = {}, []
        if kind == "chain":
            for i in range(60):
                files["m%d.min" % i] = ('(import "m%d.min")\n' % (i - 1) if i else "") + "(export (all \"m%d.min\"))\n" % (i - 1) * (i > 0) + "(export w%d)\n(define-values (w%d) %d)\n(display \"~%d:\")(display w0)\n" % (i, i, i, i)
                order.append("~%d:0" % i)
            root = "m59.min"
        elif kind == "fan":
            for i in range(60):
                files["m%d.min" % i] = "(export w%d)\n(define-values (w%d) %d)\n(display \"~%d:\")\n" % (i, i, i, i)
                order.append("~%d:" % i)
            files["m60.min"] = "".join('(import "m%d.min")' % i for i in range(60)) + "(display (list %s))" % " ".join("w%d" % i for i in range(60))
            order.append("(%s)" % " ".join(map(str, range(60))))
            root = "m60.min"
        else:
            # left and right of each rung import both of the rung below
            for i in range(14):
                for s in "lr":
                    files["%s%d.min" % (s, i)] = ('(import "./l%d.min" "../ladder/r%d.min")' % (i - 1, i - 1) if i else "") + "(display \"~%s%d:\")\n" % (s, i)
                order.append("~l%d:~r%d:" % (i, i))
            files["top.min"] = '(import "l13.min" "r13.min")'
            root = "top.min"
        put(srv.dir, {kind + "/" + p: t for p, t in files.items()})
        x = srv.run([dict(mode="import", path=kind + "/" + root)], cpu=60)[0]
        ck.observe(kind)
        ck.count("large graphs")
        if x.kind != "exit" or x.code or x.out.decode() != "".join(order):
            ck.violate("large", "%s of modules: expected %r\nobserved %s" % (kind, "".join(order), x.brief()), repr(files))


def main():
    ck = vp.Check("C18", RULE)
    r = ck.rng
    for regen in (False, True):
        if regen and not vp.boot_differs(ck):
            break
        what = "regenerated system" if regen else "system"
        srv = ck.library(regen=regen)
        try:
            library_stage(ck, r, srv, ck.n(260, 4000), what)
            deep(ck, srv)
        finally:
            srv.close()
        cli_stage(ck, r, ck.n(40, 400), regen, "command line of the " + what)
    ck.finish()


if __name__ == "__main__":
    vp.main(main)
