#!/usr/bin/env python3
import _p
import os, random, re
import vp, mon, core, rdr
from sexp import *
from refeval import *
import gendata

RULE = ("texts rendered from random data with every lexical freedom of the syntax, the same texts damaged (insertions, deletions, "
        "truncation, duplication), and random fragments and bytes; read by the core's reader from a file and from a string port, and by the "
        "library's reader; the printed data and the acceptance are compared with an independent parser; a case is one text")


def expected(t, **kw):
    """(printed data, error?) or None when the syntax is silent"""
    try:
        vs, e = rdr.parse_all(t, **kw)
    except rdr.Unjudged:
        return None
    except RecursionError:
        return None
    return "".join(write(v) + "\n" for v in vs), e is not None


def judge(want, r, who):
    out, bad = want
    if r.crashed:
        return "abnormal end: " + r.crashed
    if r.kind != "exit":
        return "did not finish: " + r.kind
    w = out.encode("latin1") + (b"" if bad else b"#<end>\n")
    if r.out != w:
        return "data differ"
    if bad and (r.code != 1 or not r.err.strip()):
        return "the text is not in the syntax, but no error is reported"
    if not bad and (r.code != 0 or r.err):
        return "the text is in the syntax, but is rejected"
    return None


STR = """(letrec-values ([(go) (lambda (p) (let-values ([(v) (read p)]) (if (eof-object? v) (begin (display "#<end>") (newline)) (begin (write v) (newline) (go p)))))])
 (go (open-input-string %s)))"""
LIB = """(import "lib/base.min" "lib/read.min")
(define (go p) (let ([s (read p)]) (if (eof-object? s) (begin (display "#<end>") (newline)) (begin (write (syntax->datum s)) (newline) (go p)))))
(go (open-input-file "%s"))
"""


def strlit(t):
    return '"' + "".join("\\" + c if c in '\\"' else c for c in t) + '"'


def boxes(w):
    """the printers of the core and of the library differ on quoted syntax only"""
    return w


def main():
    ck = vp.Check("C05", RULE)
    r = ck.rng
    asan, msan = ck.server("asan"), ck.server("plain")

    def texts(n):
        out = []
        for i in range(n):
            k = r.random()
            if k < .45:
                t = gendata.text(r, r.choice([1, 1, 2, 4]), r.choice([0, 1, 2, 3, 4]))[1]
                if r.random() < .5:
                    t = t.rstrip(" \n\t\r\f\v")
            elif k < .8:
                t = gendata.mutate(gendata.text(r, r.choice([1, 1, 2]), r.choice([0, 1, 2, 3]))[1], r)
            else:
                t = gendata.junk(r)
            out.append(t)
        return out

    def go(srv, variant, reader, ts, want, jobs, clean=()):
        rs = srv.run(jobs, cpu=20)
        for t, w, x, j in zip(ts, want, rs, jobs):
            ck.observe((reader, t))
            ck.count("texts read by the " + reader)
            ck.count("  rejected by the " + reader, int(w[1]))
            b = judge(w, x, reader)
            if b:
                ck.violate("text", "%s, %s build: %s\ntext: %r\nexpected: %r error=%s\nobserved: %s" % (reader, variant, b, t, w[0][-1500:], w[1], x.brief()), t)

    lib = None
    try:
        for rnd in range(ck.n(2, 30)):
            ts = texts(3500)
            for srv, v in ((asan, "asan"), (msan, "plain")):
                a = [(t, expected(t)) for t in ts]
                ok = [(t, w) for t, w in a if w]
                ck.count("outside the syntax description", len(a) - len(ok))
                if v == "asan":
                    for t in ts:
                        pass
                half = ok if v == "asan" else ok[:700]
                go(srv, v, "core reader (file)", [t for t, _ in half], [w for _, w in half], [dict(mode="readw", text=t) for t, _ in half])
                # from a string port; string literals hold at most 4095 characters
                part = [(t, w) for t, w in (ok[:900] if v == "asan" else ok[900:1200]) if len(t) < 4000]
                go(srv, v, "core reader (string port)", [t for t, _ in part], [(w[0] if w[1] else w[0], w[1]) for _, w in part],
                   [dict(mode="load", text=STR % strlit(t)) for t, _ in part])
            if ck.viol:
                break
            # texts outside the description must still be read or rejected cleanly
            rest = [t for t in ts if expected(t) is None] + [gendata.junk(r) + "\0" + gendata.junk(r) for _ in range(30)]
            for t, x in zip(rest, asan.run([dict(mode="readw", text=t) for t in rest])):
                ck.observe(("x", t))
                ck.count("texts only watched for a clean end")
                if x.crashed or x.kind != "exit" or x.code not in (0, 1) or (x.code == 1 and not x.err):
                    ck.violate("text", "core reader: no clean end\ntext: %r\nobserved: %s" % (t, x.brief()), t)
        # the library's reader
        stages = [False]
        if not ck.viol:
            lib = ck.library(also=("read.min",))
            for rnd in range(ck.n(1, 12)):
                ts = texts(900)
                a = [(t, expected(t, quote_syntax="syntax", core=False)) for t in ts]
                ok = [(t, w) for t, w in a if w]
                good = [(t, w) for t, w in ok if not w[1]]
                bad = [(t, w) for t, w in ok if w[1]][:400]
                # texts that are accepted can share a file
                grp = []
                for i in range(0, len(good), 4):
                    g = good[i:i + 4]
                    grp.append(("\n".join(t for t, _ in g), ("".join(w[0] for _, w in g), False)))
                allt = grp + bad
                jobs = []
                for i, (t, w) in enumerate(allt):
                    with open("%s/t%d.txt" % (lib.dir, i), "wb") as f:
                        f.write(t.encode("latin1"))
                    jobs.append(dict(mode="import", text=LIB % ("t%d.txt" % i)))
                go(lib, "library", "library reader", [t for t, _ in allt], [w for _, w in allt], jobs)
                if ck.viol:
                    break
    finally:
        asan.close()
        msan.close()
        if lib:
            lib.close()
    ck.finish()


if __name__ == "__main__":
    vp.main(main)
