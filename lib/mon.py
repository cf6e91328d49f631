"""Runs generated core programs on the real system and compares every output with the model."""
import re
import vp
from sexp import *
from refeval import *
import core

Q = lambda d: [QUOTE, d]


def expect(forms, interp=None, limit=400000):
    """-> (output text, MErr or None), or None when the model does not judge the program"""
    it = (interp or core.FullInterp)()
    it.limit = limit
    try:
        _, e = it.run(forms)
        return "".join(it.out), e
    except (TooLong, Skip, RecursionError):
        return None


def norm(b):
    return re.sub(rb"#<procedure:[^>]*>", b"#<procedure>", b)


def judge(want, r, exact=True):
    """None, or how the real run differs"""
    out, err = want
    if r.crashed:
        return "abnormal end: " + r.crashed
    if r.kind != "exit":
        return "did not finish: " + r.kind
    got, w = norm(r.out), norm(out.encode("latin1"))
    if got != w:
        n = next((i for i, (a, b) in enumerate(zip(got, w)) if a != b), min(len(got), len(w)))
        line = got[:n].count(b"\n")
        return "output differs at byte %d (line %d): expected ...%r, observed ...%r" % (
            n, line, w[max(0, n - 60):n + 120], got[max(0, n - 60):n + 120])
    if err is None:
        if r.code != 0 or r.err:
            return "expected a normal end"
    else:
        if r.code != 1:
            return "expected an error report (%s) and status 1, observed status %d" % (err.kind, r.code)
        pat = core.err_pattern(err).replace("@: contract", "[^\n]*: contract")
        if not re.match(pat, r.err.decode("latin1"), re.S):
            return "error report %r does not match %r" % (r.err, pat)
    return None


class Programs:
    """batch runner: programs is a list of (forms, want, note)"""

    def __init__(self, ck, srv, variant, mode="evalw", cpu=20):
        self.ck, self.srv, self.variant, self.mode, self.cpu = ck, srv, variant, mode, cpu

    def text(self, forms):
        return "\n".join(write(f) for f in forms)

    def run(self, progs, judge=judge, key="program", extra=None):
        ck = self.ck
        texts = [self.text(p[0]) for p in progs]
        rs = self.srv.run([dict(mode=self.mode, text=t) for t in texts], cpu=self.cpu)
        again = [i for i, r in enumerate(rs) if r.kind in ("timeout", "memory")]
        if again:
            for i, r in zip(again, self.srv.run([dict(mode=self.mode, text=texts[i]) for i in again], cpu=3 * self.cpu)):
                rs[i] = r
        bad = 0
        for i, (p, t, r) in enumerate(zip(progs, texts, rs)):
            b = judge(p[1], r)
            ck.observe(t)
            ck.count("runs on " + self.variant)
            if b:
                bad += 1
                ck.violate(key, "%s build: %s\nprogram:\n%s\nexpected output:\n%s(error: %s)\nobserved: %s" % (
                    self.variant, b, t[-6000:], p[1][0][-3000:], p[1][1] and (p[1][1].kind, [write(x) if not isinstance(x, (str, int, type(None))) or isinstance(x, Sym) else x for x in p[1][1].detail]), r.brief()), t)
            elif i % max(1, len(progs) // 6) == 0:
                ck.sample(t[:500])
        return bad


class LibPrograms(Programs):
    """programs run as modules that import the base library; every output is explicit"""

    def __init__(self, ck, srv, variant="library", cpu=40):
        Programs.__init__(self, ck, srv, variant, "import", cpu)

    def text(self, forms):
        return '(import "lib/base.min")\n' + "\n".join(write(f) for f in forms)


def lib_expect(forms, interp):
    """expected output of a module: only what its forms print"""
    it = interp()
    it.limit = 400000
    try:
        for f in forms:
            try:
                it.ev(f, it.top)
            except MErr as x:
                return "".join(it.out), x
        return "".join(it.out), None
    except (TooLong, Skip, RecursionError):
        return None


def pack(items, n, interp=None):
    """items: lists of forms, each an independent question.  Joins up to n of them into one program; one whose
    outcome is an error ends its program.  -> programs for Programs.run (unjudged items are dropped)"""
    out = []
    cur, text = [], []
    for it in items:
        w = expect(it, interp)
        if w is None:
            continue
        if w[1] is not None:
            out.append((cur + it, ("".join(text) + w[0], w[1])))
            cur, text = [], []
            continue
        cur = cur + it
        text.append(w[0][:-len("#<end>\n")])
        if len(cur) >= n:
            out.append((cur, ("".join(text) + "#<end>\n", None)))
            cur, text = [], []
    if cur:
        out.append((cur, ("".join(text) + "#<end>\n", None)))
    return out
